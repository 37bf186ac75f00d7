//! Small deterministic PRNG (splitmix64 / xoshiro256**).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng { let mut x = seed; Rng { s: [sm(&mut x), sm(&mut x), sm(&mut x), sm(&mut x)] } }
    pub fn from(seed: u64, stream: &str, case: u64) -> Rng {
        let mut h = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xcbf29ce484222325;
        for b in stream.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        h ^= case.wrapping_mul(0x9E3779B97F4A7C15);
        Rng::new(h)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    /// a..=b
    pub fn i(&mut self, a: i64, b: i64) -> i64 { a + (self.u64() % ((b - a + 1) as u64)) as i64 }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn r(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    /// true with probability p percent
    pub fn p(&mut self, pc: u32) -> bool { self.u64() % 100 < pc as u64 }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.n(v.len())] }
    pub fn pickv<T: Clone>(&mut self, v: &[T]) -> T { v[self.n(v.len())].clone() }
}
