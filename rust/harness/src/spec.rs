//! Independent reference definitions (written from the Poseidon paper, not from the code).
use real::ff::{FromUniformBytes, PrimeField};
use std::ops::{Add, Mul};

/// Grain LFSR of the Poseidon paper, appendix E: an unbounded bit stream.
pub struct GrainRef {
    s: std::collections::VecDeque<bool>,
}
impl GrainRef {
    /// field tag (2 bits), s-box tag (4 bits), field size (12), t (12), R_F (10), R_P (10), 30 ones
    pub fn new(field: u32, sbox: u32, n: u32, t: u32, rf: u32, rp: u32) -> Self {
        let mut s = std::collections::VecDeque::new();
        for (v, len) in [(field, 2), (sbox, 4), (n, 12), (t, 12), (rf, 10), (rp, 10)] {
            for i in (0..len).rev() {
                s.push_back((v >> i) & 1 == 1);
            }
        }
        for _ in 0..30 {
            s.push_back(true);
        }
        assert_eq!(s.len(), 80);
        let mut g = GrainRef { s };
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    /// b_{i+80} = b_{i+62} + b_{i+51} + b_{i+38} + b_{i+23} + b_{i+13} + b_i
    pub fn raw(&mut self) -> bool {
        let b = self.s[62] ^ self.s[51] ^ self.s[38] ^ self.s[23] ^ self.s[13] ^ self.s[0];
        self.s.pop_front();
        self.s.push_back(b);
        b
    }
    /// self-shrinking: pairs; keep the second bit of a pair whose first bit is one
    pub fn bit(&mut self) -> bool {
        loop {
            let (a, b) = (self.raw(), self.raw());
            if a {
                return b;
            }
        }
    }
    /// `n` bits, most significant first, as little-endian bytes
    fn bytes(&mut self, n: usize) -> [u8; 64] {
        let mut out = [0u8; 64];
        for k in 0..n {
            if self.bit() {
                let i = n - 1 - k;
                out[i / 8] |= 1 << (i % 8);
            }
        }
        out
    }
    pub fn field<F: PrimeField<Repr = [u8; 32]>>(&mut self) -> F {
        loop {
            let b = self.bytes(F::NUM_BITS as usize);
            if let Some(x) = Option::<F>::from(F::from_repr(b[..32].try_into().unwrap())) {
                return x;
            }
        }
    }
    pub fn field_mod<F: FromUniformBytes<64>>(&mut self) -> F {
        let b = self.bytes(F::NUM_BITS as usize);
        // sum of bytes * 256^i, without the library's wide reduction
        let mut acc = F::ZERO;
        for x in b.iter().rev() {
            acc = acc * F::from(256) + F::from(*x as u64);
        }
        acc
    }
}
/// (round constants, MDS) as the reference implementation generates them
pub fn params<F: FromUniformBytes<64> + PrimeField<Repr = [u8; 32]> + Ord>(
    t: usize, rf: usize, rp: usize, select: usize,
) -> Option<(Vec<Vec<F>>, Vec<Vec<F>>)> {
    let mut g = GrainRef::new(1, 0, F::NUM_BITS, t as u32, rf as u32, rp as u32);
    let rc = (0..rf + rp).map(|_| (0..t).map(|_| g.field::<F>()).collect()).collect();
    let mut k = 0;
    loop {
        let v: Vec<F> = (0..2 * t).map(|_| g.field_mod()).collect();
        let distinct = (0..2 * t).all(|i| (0..i).all(|j| v[i] != v[j]));
        if !distinct {
            continue;
        }
        if k < select {
            k += 1;
            continue;
        }
        let mut m = vec![vec![F::ZERO; t]; t];
        for i in 0..t {
            for j in 0..t {
                m[i][j] = Option::from((v[i] + v[t + j]).invert())?;
            }
        }
        return Some((rc, m));
    }
}

pub fn mat_vec<F: Copy + Add<Output = F> + Mul<Output = F>>(m: &[Vec<F>], v: &[F]) -> Vec<F> {
    m.iter()
        .map(|row| {
            let mut acc = row[0] * v[0];
            for j in 1..v.len() {
                acc = acc + row[j] * v[j];
            }
            acc
        })
        .collect()
}
/// Poseidon permutation: R_F/2 full rounds, R_P partial rounds, R_F/2 full rounds; each round is
/// ARC, S-box (all words / first word), MDS.
pub fn permute<F: Copy + Add<Output = F> + Mul<Output = F>>(
    state: &[F], rc: &[Vec<F>], mds: &[Vec<F>], rf: usize, rp: usize, sbox: impl Fn(F) -> F,
) -> Vec<F> {
    let mut s = state.to_vec();
    for r in 0..rf + rp {
        for i in 0..s.len() {
            s[i] = s[i] + rc[r][i];
        }
        if r < rf / 2 || r >= rf / 2 + rp {
            for i in 0..s.len() {
                s[i] = sbox(s[i]);
            }
        } else {
            s[0] = sbox(s[0]);
        }
        s = mat_vec(mds, &s);
    }
    s
}
/// Sponge with one output: state of `t` zero words, `cap` in word `slot`; every block of `rate`
/// words is added at words `off..off+rate`, then the permutation is applied; output is word 0.
pub fn sponge<F: Copy + Add<Output = F>>(
    t: usize, rate: usize, slot: usize, off: usize, zero: F, cap: F, padded: &[F],
    perm: impl Fn(&[F]) -> Vec<F>,
) -> F {
    assert!(padded.len() % rate == 0 && !padded.is_empty());
    let mut s = vec![zero; t];
    s[slot] = cap;
    for b in padded.chunks(rate) {
        for i in 0..rate {
            s[off + i] = s[off + i] + b[i];
        }
        s = perm(&s);
    }
    s[0]
}
pub fn pad<F: Copy>(msg: &[F], rate: usize, zero: F) -> Vec<F> {
    let mut v = msg.to_vec();
    while v.len() % rate != 0 {
        v.push(zero);
    }
    v
}
