//! Choice tape: every decision of a run is drawn here. A stream per (label,key)
//! so that removing one decision does not shift the others.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

pub type Key = (String, u32);

struct Stream {
    rng: Rng,
    vals: Vec<u64>, // recorded (gen) or given (replay)
    pos: usize,
}

pub struct Tape {
    pub seed: u64,
    replay: bool,
    given: BTreeMap<Key, Vec<u64>>,
    streams: BTreeMap<(&'static str, u32), Stream>,
    pub draws: u64,
}

impl Tape {
    pub fn gen(seed: u64) -> Self {
        Tape { seed, replay: false, given: BTreeMap::new(), streams: BTreeMap::new(), draws: 0 }
    }
    pub fn replay(seed: u64, given: BTreeMap<Key, Vec<u64>>) -> Self {
        Tape { seed, replay: true, given, streams: BTreeMap::new(), draws: 0 }
    }
    fn stream(&mut self, label: &'static str, key: u32) -> &mut Stream {
        let seed = self.seed;
        let replay = self.replay;
        let given = &self.given;
        self.streams.entry((label, key)).or_insert_with(|| Stream {
            rng: Rng::new(mix(seed) ^ hash_str(label).wrapping_add((key as u64) << 17)),
            vals: if replay { given.get(&(label.to_string(), key)).cloned().unwrap_or_default() } else { vec![] },
            pos: 0,
        })
    }
    /// Draw with a custom generator; the drawn value is what is recorded.
    pub fn with(&mut self, label: &'static str, key: u32, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        self.draws += 1;
        let replay = self.replay;
        let s = self.stream(label, key);
        let v = if replay {
            s.vals.get(s.pos).copied().unwrap_or(0)
        } else {
            let v = f(&mut s.rng);
            s.vals.push(v);
            v
        };
        s.pos += 1;
        if n == 0 {
            v
        } else {
            v % n
        }
    }
    pub fn choose(&mut self, label: &'static str, key: u32, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.with(label, key, n, |r| r.below(n))
    }
    pub fn chance(&mut self, label: &'static str, key: u32, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.with(label, key, 2, |r| (r.below(den) < num) as u64) == 1
    }
    /// weighted pick: index 0 is the simplest
    pub fn pick(&mut self, label: &'static str, key: u32, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        self.with(label, key, w.len() as u64, |r| {
            let mut x = r.below(tot);
            for (i, a) in w.iter().enumerate() {
                if x < *a {
                    return i as u64;
                }
                x -= a;
            }
            0
        }) as usize
    }
    /// what was consumed, trailing zeros cut
    pub fn recorded(&self) -> BTreeMap<Key, Vec<u64>> {
        let mut out = BTreeMap::new();
        for ((l, k), s) in &self.streams {
            let mut v: Vec<u64> = s.vals.iter().take(s.pos).copied().collect();
            while v.last() == Some(&0) {
                v.pop();
            }
            if !v.is_empty() {
                out.insert((l.to_string(), *k), v);
            }
        }
        out
    }
}
