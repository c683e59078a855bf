//! Source of nondeterminism shared by the two back ends.
//!
//! Every contract body draws its inputs from here. Under Kani a draw is a fully symbolic value, so the verifier
//! decides the contract for all of them; natively a draw comes from a seeded, edge-biased generator or from a replay
//! file, so the same contract text is executed on the real code with concrete inputs.

#[cfg(kani)]
mod imp {
    macro_rules! ints { ($($t:ident),*) => { $( #[inline(always)] pub fn $t() -> $t { kani::any() } )* } }
    ints!(u8, u16, u32, u64, i8, i16, i32, i64, usize, bool);
    #[inline(always)]
    pub fn bytes<const N: usize>() -> [u8; N] { kani::any() }
    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct AssumeFailed;

    pub struct Gen {
        state: u64,
        pub draws: Vec<Vec<u8>>,
        replay: Option<Vec<Vec<u8>>>,
        pos: usize,
        edge: u64,
        pub covers: Vec<&'static str>,
    }

    thread_local! { pub static GEN: RefCell<Gen> = RefCell::new(Gen { state: 1, draws: Vec::new(), replay: None, pos: 0, edge: 0, covers: Vec::new() }); }

    fn mix(mut z: u64) -> u64 {
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub fn start(seed: u64) {
        GEN.with(|g| {
            let mut g = g.borrow_mut();
            g.state = mix(seed.wrapping_add(0x9E3779B97F4A7C15));
            g.draws.clear();
            g.replay = None;
            g.pos = 0;
            g.edge = mix(seed) % 4;
            g.covers.clear();
        })
    }

    pub fn start_replay(values: Vec<Vec<u8>>) {
        start(1);
        GEN.with(|g| g.borrow_mut().replay = Some(values));
    }

    pub fn take_draws() -> Vec<Vec<u8>> {
        GEN.with(|g| std::mem::take(&mut g.borrow_mut().draws))
    }

    impl Gen {
        fn next(&mut self) -> u64 {
            self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
            mix(self.state)
        }
        fn word(&mut self, bits: u32) -> u64 {
            let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            let r = self.next();
            // edge level 0: uniform; higher levels prefer boundary values
            let edgy = self.edge != 0 && r % 4 < self.edge;
            let v = self.next();
            if !edgy {
                return v & mask
            }
            let k = self.next();
            (match (r >> 8) % 9 {
                0 => 0,
                1 => u64::MAX,
                2 => k % 9,
                3 => u64::MAX - (k % 9),
                4 => 1u64 << (k % bits as u64),
                5 => (1u64 << (k % bits as u64)).wrapping_sub(1),
                6 => (1u64 << (bits - 1)).wrapping_add(k % 3).wrapping_sub(1),
                7 => k % 256,
                _ => v
            }) & mask
        }
    }

    /// Draw raw bytes, in the order the verifier would.
    fn draw<const N: usize>(f: impl FnOnce(&mut Gen) -> [u8; N]) -> [u8; N] {
        GEN.with(|g| {
            let mut g = g.borrow_mut();
            let out = if g.replay.is_some() {
                let p = g.pos;
                g.pos += 1;
                let mut b = [0u8; N];
                if let Some(v) = g.replay.as_ref().unwrap().get(p) {
                    for (d, s) in b.iter_mut().zip(v.iter()) { *d = *s }
                }
                b
            }
            else {
                f(&mut g)
            };
            g.draws.push(out.to_vec());
            out
        })
    }

    macro_rules! ints { ($($t:ident),*) => { $(
        #[allow(dead_code)]
        pub fn $t() -> $t { <$t>::from_le_bytes(draw(|g| (g.word(<$t>::BITS) as $t).to_le_bytes())) }
    )* } }
    ints!(u8, u16, u32, u64, i8, i16, i32, i64, usize);
    #[allow(dead_code)]
    pub fn bool() -> bool { draw::<1>(|g| [(g.next() & 1) as u8])[0] & 1 != 0 }
    #[allow(dead_code)]
    pub fn bytes<const N: usize>() -> [u8; N] {
        draw(|g| { let mut b = [0u8; N]; for x in &mut b { *x = g.word(8) as u8 } b })
    }
    /// A value in `0..n`, recorded as a full-width draw so that the draw order matches the verifier's.
    #[allow(dead_code)]
    pub fn small(n: usize) -> usize {
        usize::from_le_bytes(draw(|g| ((g.next() % n as u64) as usize).to_le_bytes()))
    }
    #[allow(dead_code)]
    pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(AssumeFailed)) } }
    #[allow(dead_code)]
    pub fn cover(label: &'static str) { GEN.with(|g| { let mut g = g.borrow_mut(); if !g.covers.contains(&label) { g.covers.push(label) } }) }
}

pub use imp::*;

/// A value in `0..n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    #[cfg(kani)]
    { let v: usize = usize(); assume(v < n); v }
    #[cfg(not(kani))]
    { let v = small(n); assume(v < n); v }
}

/// One of two bounds: `k` for the verifier, `n` for native execution.
#[inline(always)]
#[allow(dead_code)]
pub const fn bound(k: usize, n: usize) -> usize {
    if cfg!(kani) { k } else { n }
}

/// A buffer of any length in `0..=max` with any contents.
#[inline(always)]
#[allow(dead_code)]
pub fn buffer<const MAX: usize>() -> ([u8; MAX], usize) {
    let b = bytes::<MAX>();
    let n = below(MAX + 1);
    (b, n)
}

/// For every `k` in `0..n`: the verifier gets one arbitrary `k`, native execution runs all of them.
#[inline(always)]
#[allow(dead_code)]
pub fn each(n: usize, mut f: impl FnMut(usize)) {
    if n == 0 { return }
    #[cfg(kani)]
    f(below(n));
    #[cfg(not(kani))]
    for k in 0..n { f(k) }
}

/// Every one of `n` cases: the verifier runs all of them in turn, native execution picks one.
#[inline(always)]
#[allow(dead_code)]
pub fn case(n: usize, mut f: impl FnMut(usize)) {
    #[cfg(kani)]
    { let mut i = 0; while i < n { f(i); i += 1 } }
    #[cfg(not(kani))]
    f(small(n))
}

/// An offset: fixed for the verifier (offset arithmetic has contracts of its own), anything in `0..n` natively.
#[inline(always)]
#[allow(dead_code)]
pub fn offset(n: usize) -> usize {
    #[cfg(kani)]
    { let _ = n; 1 }
    #[cfg(not(kani))]
    small(n)
}

/// Whether the verifier runs the thorough tier.
#[allow(dead_code)]
pub const DEEP: bool = cfg!(feature = "deep");
