//! Deterministic randomness and the dictionary of "interesting" constants.
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0x5555_5555_5555_5555) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            (((self.u64() >> 32) as u128 * n as u128) >> 32) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// Constants mined from the sources under test by the driver (so that magic
/// numbers of the code are also numbers of the workload), plus built-in ones.
pub struct Dict {
    pub ints: Vec<i64>,
    pub strs: Vec<String>,
    pub mined: usize,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut ints: Vec<i64> = vec![];
        let mut strs: Vec<String> = vec![];
        let mut mined = 0;
        if let Ok(p) = std::env::var("PFS_DICT") {
            if let Ok(s) = std::fs::read_to_string(p) {
                for l in s.lines() {
                    if let Some(n) = l.strip_prefix("i ") {
                        if let Ok(n) = n.parse::<i64>() {
                            ints.push(n);
                            mined += 1;
                        }
                    } else if let Some(n) = l.strip_prefix("s ") {
                        strs.push(n.to_string());
                        mined += 1;
                    }
                }
            }
        }
        ints.extend([0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256]);
        strs.extend(["", "a", "schema", "PAR1", "\u{0}", "\u{FEFF}", "\u{10FFFF}", "é", "日本"].map(String::from));
        ints.sort();
        ints.dedup();
        strs.sort();
        strs.dedup();
        Dict { ints, strs, mined }
    })
}

/// all +-2^k +-{0,1}
pub fn edges64() -> &'static [i64] {
    static D: OnceLock<Vec<i64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut v = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1];
        for k in 0..63 {
            let p = 1i64 << k;
            for d in [-1i64, 0, 1] {
                v.push(p.wrapping_add(d));
                v.push((-p).wrapping_add(d));
            }
        }
        v.sort();
        v.dedup();
        v
    })
}

pub fn int_in(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    let cand = match r.below(10) {
        0..=3 => *r.pick(edges64()),
        4..=5 => {
            let d = dict();
            let x = *r.pick(&d.ints);
            match r.below(6) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => x.wrapping_neg(),
                _ => x,
            }
        }
        6..=7 => r.below(300) as i64 - 100,
        _ => (r.u64() >> r.below(64)) as i64,
    };
    if cand >= lo && cand <= hi {
        cand
    } else {
        // wrap into range
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let off = (cand as i128 - lo as i128).rem_euclid(span as i128);
        (lo as i128 + off) as i64
    }
}
