//! Simulated entropy source (getrandom system call).

use crate::rng::Rng;

pub struct Entropy {
    rng: Rng,
    /// the scenario logs draws
    pub log: Vec<u8>,
    pub calls: u64,
    /// XORed onto the stream: (absolute offset, mask)
    pub perturb: Vec<(usize, u8)>,
    /// errno to fail with from the given call number on
    pub fail_from: Option<(u64, i32)>,
    /// so many calls fail (0: all of them)
    pub fail_n: u64,
    /// probability (of 256) for short reads / EINTR
    pub short: u32,
    pub eintr: u32,
    pub fixed: Option<Vec<u8>>,
}

impl Entropy {
    pub fn new(seed: u64) -> Self {
        Entropy {
            rng: Rng::new(seed),
            log: Vec::new(),
            calls: 0,
            perturb: Vec::new(),
            fail_from: None,
            fail_n: 0,
            short: 0,
            eintr: 0,
            fixed: None,
        }
    }
}

/// Returns the number of bytes delivered or -errno.
pub fn getrandom(buf: &mut [u8]) -> isize {
    let s = crate::sim().expect("entropy outside of the simulation");
    let _g = crate::alloc::harness();
    if buf.is_empty() {
        return 0;
    }
    s.entropy.calls += 1;
    if let Some((from, errno)) = s.entropy.fail_from {
        if s.entropy.calls > from && (s.entropy.fail_n == 0 || s.entropy.calls <= from + s.entropy.fail_n) {
            s.count("fault.entropy_error");
            return -(errno as isize);
        }
    }
    if s.entropy.eintr > 0 && s.flip(crate::Stream::Misc, s.entropy.eintr) {
        s.count("fault.entropy_eintr");
        return -(libc::EINTR as isize);
    }
    let mut n = buf.len();
    if s.entropy.short > 0 && n > 1 && s.flip(crate::Stream::Misc, s.entropy.short) {
        n = 1 + s.pick(crate::Stream::Misc, n as u32 - 1) as usize;
        s.count("fault.entropy_short");
    }
    for b in buf[..n].iter_mut() {
        let off = s.entropy.log.len();
        let mut x = s.entropy.rng.u64() as u8;
        if let Some(ref f) = s.entropy.fixed {
            if !f.is_empty() {
                x = f[off % f.len()];
            }
        }
        for &(o, m) in s.entropy.perturb.iter() {
            if o == off {
                x ^= m;
            }
        }
        *b = x;
        s.entropy.log.push(x);
    }
    n as isize
}
