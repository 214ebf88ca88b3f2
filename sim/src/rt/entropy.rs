//! Seeded entropy for getrandom (hash-map keys, `rand::rng()`, `Pcg64Mcg::from_os_rng`...).
use super::clock::Shared;
use super::rng::Rng;

pub struct Entropy {
    pub active: bool,
    pub rng: Rng,
    pub bytes: u64,
}
pub static ENTROPY: Shared<Entropy> = Shared::new(Entropy { active: false, rng: Rng::new(0), bytes: 0 });

pub fn start(seed: u64) {
    let e = ENTROPY.get();
    e.rng = Rng::fork(seed, 0xE27);
    e.active = true;
    e.bytes = 0;
}

pub fn fill(buf: *mut u8, len: usize) -> bool {
    if !ENTROPY.get().active {
        return false;
    }
    let e = ENTROPY.get();
    e.bytes += len as u64;
    for i in 0..len {
        unsafe { *buf.add(i) = e.rng.next() as u8 };
    }
    true
}
