//! Buffers with inaccessible neighbours, read-only inputs and watched slack.
use h_common::Rng;

const PAGE: usize = 4096;

pub struct Region {
    base: *mut u8,
    total: usize,
    /// accessible part
    at: *mut u8,
    len: usize,
}
unsafe impl Send for Region {}
unsafe impl Sync for Region {}

impl Region {
    /// `len` accessible bytes (rounded up to pages) between two inaccessible pages
    pub fn new(len: usize) -> Region {
        let body = len.div_ceil(PAGE).max(1) * PAGE;
        let total = body + 2 * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1, "mmap failed");
            assert_eq!(libc::mprotect(base.add(PAGE) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE), 0);
            Region { base, total, at: base.add(PAGE), len: body }
        }
    }
    pub fn bytes(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.at, self.len) }
    }
    pub fn read_only(&self) {
        unsafe { assert_eq!(libc::mprotect(self.at as *mut _, self.len, libc::PROT_READ), 0) }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, self.total);
        }
    }
}

/// Where a buffer of `len` bytes starts in its region: against one end or the other.
fn place(rng: &mut Rng, room: usize, len: usize, align: usize) -> usize {
    let last = room - len;
    let p = match rng.below(3) {
        0 => 0,
        1 => last,
        _ => rng.below(last + 1),
    };
    p / align * align
}

#[derive(Default)]
pub struct Arena {
    pub regions: Vec<Region>,
    /// address, expected bytes: what no call may change
    watch: Vec<(usize, Vec<u8>)>,
}

impl Arena {
    /// A read-only input.
    pub fn input(&mut self, rng: &mut Rng, data: &[u8], align: usize) -> *const u8 {
        let r = Region::new(data.len());
        let b = r.bytes();
        rng.fill(&mut b[..32.min(data.len())]);
        let at = place(rng, b.len(), data.len(), align);
        b[at..at + data.len()].copy_from_slice(data);
        let p = b[at..].as_ptr();
        r.read_only();
        self.regions.push(r);
        p
    }
    pub fn words(&mut self, rng: &mut Rng, w: &[u64]) -> *const u64 {
        let b: Vec<u8> = w.iter().flat_map(|x| x.to_ne_bytes()).collect();
        self.input(rng, &b, 8) as *const u64
    }
    /// A list of items and the array of pointers to them.
    pub fn items(&mut self, rng: &mut Rng, items: &[Vec<u8>]) -> (*const *const u8, &'static str) {
        let style = rng.below(5);
        let mut ptrs: Vec<u64> = vec![0; items.len()];
        let name = match style {
            // each alone in its pages
            0 => {
                for (p, x) in ptrs.iter_mut().zip(items) {
                    *p = self.input(rng, x, 1) as u64;
                }
                "each between guard pages"
            }
            // packed without gaps in any order, the last byte against a guard page
            1 | 2 => {
                let mut order: Vec<usize> = (0..items.len()).collect();
                if style == 2 {
                    rng.shuffle(&mut order);
                }
                let all: Vec<u8> = order.iter().flat_map(|i| items[*i].iter().copied()).collect();
                let base = self.input(rng, &all, 1) as u64;
                let mut at = 0;
                for i in order {
                    ptrs[i] = base + at;
                    at += items[i].len() as u64;
                }
                "packed"
            }
            // two blocks, each up against its guard page
            4 if items.len() > 2 => {
                let m = rng.range(1, items.len() - 1);
                for (at, part) in [(0, &items[..m]), (m, &items[m..])] {
                    let all = part.concat();
                    let mut p = self.input(rng, &all, 1) as u64;
                    for (k, x) in part.iter().enumerate() {
                        ptrs[at + k] = p;
                        p += x.len() as u64;
                    }
                }
                "two blocks"
            }
            // equal items share their memory, odd gaps between them
            _ => {
                let mut seen: std::collections::HashMap<&[u8], u64> = Default::default();
                let mut all = vec![0u8; rng.below(7)];
                let mut off = vec![];
                for x in items {
                    let o = *seen.entry(x).or_insert_with(|| {
                        let o = all.len() as u64;
                        all.extend_from_slice(x);
                        all.extend(std::iter::repeat(0xEE).take(rng.below(4)));
                        o
                    });
                    off.push(o);
                }
                while all.len() > 1 && all.last() == Some(&0xEE) && !items.iter().any(|x| x.last() == Some(&0xEE)) {
                    all.pop();
                }
                let base = self.input(rng, &all, 1) as u64;
                for (p, o) in ptrs.iter_mut().zip(off) {
                    *p = base + o;
                }
                "shared"
            }
        };
        (self.words(rng, &ptrs) as *const *const u8, name)
    }
    /// A writable output; every other byte of its region is watched.
    pub fn output(&mut self, rng: &mut Rng, len: usize) -> (*mut u8, Vec<u8>) {
        let r = Region::new(len);
        let b = r.bytes();
        rng.fill(b);
        let at = place(rng, b.len(), len, 1);
        self.watch.push((b.as_ptr() as usize, b[..at].to_vec()));
        self.watch.push((b[at..].as_ptr() as usize + len, b[at + len..].to_vec()));
        let before = b[at..at + len].to_vec();
        let p = b[at..].as_mut_ptr();
        self.regions.push(r);
        (p, before)
    }
    /// `n` outputs of `len` bytes and the array of pointers to them.
    pub fn outputs(&mut self, rng: &mut Rng, n: usize, len: usize) -> (*mut *mut u8, Vec<(*mut u8, Vec<u8>)>) {
        let mut v: Vec<(*mut u8, Vec<u8>)> = vec![];
        match rng.below(5) {
            0 => {
                for _ in 0..n {
                    v.push(self.output(rng, len));
                }
            }
            // runs of neighbours with watched gaps between them
            k @ (3 | 4) => {
                let long = *rng.pick(&[2usize, 3, 16, 64, 127]);
                let mut starts = vec![0; n];
                let (mut at, mut run) = (0, rng.range(2, long.max(3)));
                let mut gaps = vec![];
                for s in starts.iter_mut() {
                    if run == 0 {
                        let g = *rng.pick(&[1usize, 8, 48, len, len + 1, 3 * len]);
                        gaps.push((at, g));
                        at += g;
                        run = rng.range(1, long);
                    }
                    run -= 1;
                    *s = at;
                    at += len;
                }
                let (base, before) = self.output(rng, at);
                for (g, w) in gaps {
                    self.watch.push((base as usize + g, before[g..g + w].to_vec()));
                }
                if k == 4 {
                    // the last rows come first, so that the first pair is still a pair of neighbours
                    let m = rng.range(1, n - 1);
                    starts.rotate_left(m);
                }
                for i in starts {
                    v.push((unsafe { base.add(i) }, before[i..i + len].to_vec()));
                }
            }
            k => {
                let (base, before) = self.output(rng, n * len);
                let mut order: Vec<usize> = (0..n).collect();
                if k == 2 {
                    rng.shuffle(&mut order);
                }
                for i in order {
                    v.push((unsafe { base.add(i * len) }, before[i * len..(i + 1) * len].to_vec()));
                }
            }
        }
        let ptrs: Vec<u64> = v.iter().map(|x| x.0 as u64).collect();
        (self.words(rng, &ptrs) as *mut *mut u8, v)
    }
    /// bytes next to outputs that were changed
    pub fn trampled(&self) -> Option<String> {
        for (a, w) in &self.watch {
            let now = unsafe { std::slice::from_raw_parts(*a as *const u8, w.len()) };
            if now != &w[..] {
                let k = now.iter().zip(w).position(|(x, y)| x != y).unwrap();
                return Some(format!("byte {k} of {} bytes next to an output region", w.len()));
            }
        }
        None
    }
}

/// The same interface over exactly sized heap blocks, for AddressSanitizer.
pub fn now(p: *const u8, len: usize) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(p, len) }.to_vec()
}
