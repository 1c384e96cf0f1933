//! Byte-addressed memory objects with optional symbolic bytes, shared copy-on-write.
use crate::expr::E;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PAGE: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub d: Box<[u8]>,
    pub s: Option<Box<[E]>>, // 0 = concrete byte
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub ro: bool,
    pub heap: bool,
    /// pages from the start; what is beyond them still has its initial value
    pub pages: Vec<Rc<Page>>,
    pub fill: u8,
    /// size if it is symbolic (then `size` is an upper bound), else 0
    pub sym: E,
    /// with a symbolic size: the object is known to have at least so many bytes
    pub lo: u64,
}

/// larger objects get their pages when they are written
const EAGER: usize = 1 << 16;

impl Obj {
    pub fn new(base: u64, size: u64, fill: u8, heap: bool) -> Obj {
        let n = (size as usize).min(EAGER);
        let mut pages = vec![];
        let mut o = 0;
        let mut full: Option<Rc<Page>> = None;
        while o < n {
            let k = (n - o).min(PAGE);
            if k == PAGE {
                if full.is_none() {
                    full = Some(Rc::new(Page { d: vec![fill; PAGE].into_boxed_slice(), s: None }));
                }
                pages.push(full.clone().unwrap());
            } else {
                pages.push(Rc::new(Page { d: vec![fill; k].into_boxed_slice(), s: None }));
            }
            o += k;
        }
        Obj { base, size, ro: false, heap, pages, fill, sym: 0, lo: 0 }
    }
    pub fn from_bytes(base: u64, b: &[u8], ro: bool) -> Obj {
        let pages = b.chunks(PAGE).map(|c| Rc::new(Page { d: c.to_vec().into_boxed_slice(), s: None })).collect();
        Obj { base, size: b.len() as u64, ro, heap: false, pages, fill: 0, sym: 0, lo: 0 }
    }
    #[cold]
    fn grow(&mut self, page: usize) {
        let full = Rc::new(Page { d: vec![self.fill; PAGE].into_boxed_slice(), s: None });
        while self.pages.len() <= page {
            self.pages.push(full.clone());
        }
    }
    #[inline]
    fn page_mut(&mut self, page: usize) -> &mut Page {
        if page >= self.pages.len() {
            self.grow(page);
        }
        Rc::make_mut(&mut self.pages[page])
    }
    #[inline]
    pub fn byte(&self, off: usize) -> (u8, E) {
        let Some(p) = self.pages.get(off / PAGE) else { return (self.fill, 0) };
        let i = off % PAGE;
        (
            p.d[i],
            match &p.s {
                Some(s) => s[i],
                None => 0,
            },
        )
    }
    pub fn set(&mut self, off: usize, v: u8, e: E) {
        let p = self.page_mut(off / PAGE);
        let i = off % PAGE;
        p.d[i] = v;
        if e != 0 {
            let n = p.d.len();
            p.s.get_or_insert_with(|| vec![0; n].into_boxed_slice())[i] = e;
        } else if let Some(s) = &mut p.s {
            s[i] = 0;
        }
    }
    /// fully concrete read of n <= 16 bytes within one page
    #[inline]
    pub fn fast(&self, off: usize, n: usize) -> Option<u128> {
        let i = off % PAGE;
        let p = self.pages.get(off / PAGE)?;
        if i + n > p.d.len() {
            return None;
        }
        if let Some(s) = &p.s {
            if s[i..i + n].iter().any(|x| *x != 0) {
                return None;
            }
        }
        let mut r = 0u128;
        for k in (0..n).rev() {
            r = (r << 8) | p.d[i + k] as u128;
        }
        Some(r)
    }
    pub fn write_conc(&mut self, off: usize, v: u128, n: usize) {
        let i = off % PAGE;
        if i + n <= PAGE {
            let p = self.page_mut(off / PAGE);
            for k in 0..n {
                p.d[i + k] = (v >> (8 * k)) as u8;
            }
            if let Some(s) = &mut p.s {
                for k in 0..n {
                    s[i + k] = 0;
                }
            }
        } else {
            for k in 0..n {
                self.set(off + k, (v >> (8 * k)) as u8, 0);
            }
        }
    }
    pub fn read_range(&self, off: usize, n: usize) -> (Vec<u8>, Option<Vec<E>>) {
        let mut d = Vec::with_capacity(n);
        let mut s: Option<Vec<E>> = None;
        let mut o = off;
        let end = off + n;
        while o < end {
            let Some(p) = self.pages.get(o / PAGE) else {
                d.resize(n, self.fill);
                if let Some(sv) = &mut s {
                    sv.resize(n, 0);
                }
                break;
            };
            let i = o % PAGE;
            let k = (end - o).min(p.d.len() - i);
            d.extend_from_slice(&p.d[i..i + k]);
            match &p.s {
                Some(ps) => {
                    let sv = s.get_or_insert_with(|| vec![0; o - off]);
                    sv.extend_from_slice(&ps[i..i + k]);
                }
                None => {
                    if let Some(sv) = &mut s {
                        sv.resize(sv.len() + k, 0);
                    }
                }
            }
            o += k;
        }
        (d, s)
    }
    pub fn write_range(&mut self, off: usize, d: &[u8], s: Option<&[E]>) {
        let mut o = 0;
        while o < d.len() {
            let p = self.page_mut((off + o) / PAGE);
            let i = (off + o) % PAGE;
            let k = (d.len() - o).min(p.d.len() - i);
            p.d[i..i + k].copy_from_slice(&d[o..o + k]);
            match s {
                Some(sv) if sv[o..o + k].iter().any(|x| *x != 0) => {
                    let n = p.d.len();
                    p.s.get_or_insert_with(|| vec![0; n].into_boxed_slice())[i..i + k].copy_from_slice(&sv[o..o + k]);
                }
                _ => {
                    if let Some(ps) = &mut p.s {
                        ps[i..i + k].fill(0);
                    }
                }
            }
            o += k;
        }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub objs: Rc<BTreeMap<u64, Rc<Obj>>>,
    pub next: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { objs: Rc::new(BTreeMap::new()), next: 0x1_0000_0000 }
    }
    #[inline]
    pub fn find(&self, a: u64) -> Option<&Rc<Obj>> {
        let (_, o) = self.objs.range(..=a).next_back()?;
        if a - o.base < o.size {
            Some(o)
        } else {
            None
        }
    }
    pub fn find_mut(&mut self, a: u64) -> Option<&mut Obj> {
        let m = Rc::make_mut(&mut self.objs);
        let (_, o) = m.range_mut(..=a).next_back()?;
        if a - o.base < o.size {
            Some(Rc::make_mut(o))
        } else {
            None
        }
    }
    pub fn insert(&mut self, o: Obj) {
        Rc::make_mut(&mut self.objs).insert(o.base, Rc::new(o));
    }
    pub fn remove(&mut self, base: u64) -> Option<Rc<Obj>> {
        Rc::make_mut(&mut self.objs).remove(&base)
    }
    pub fn alloc(&mut self, size: u64, align: u64, fill: u8, heap: bool) -> u64 {
        let al = align.max(16);
        let base = (self.next + al - 1) / al * al;
        self.next = base + size + 32;
        self.insert(Obj::new(base, size, fill, heap));
        base
    }
}
