//! deterministic pseudo random numbers (splitmix64)
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn string(&mut self, alphabet: &[&str], lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    /// split into random fragments (possibly empty ones)
    pub fn fragment(&mut self, b: &[u8]) -> Vec<Vec<u8>> {
        if b.len() > 20000 {
            // few large pieces
            let max = *self.pick(&[5000usize, 16384, 40000, 65536, 200000]);
            let mut out = vec![];
            let mut i = 0;
            while i < b.len() { let n = self.range(1, max).min(b.len() - i); out.push(b[i..i + n].to_vec()); i += n; }
            return out;
        }
        match self.below(5) {
            0 => return vec![b.to_vec()],
            1 => return b.iter().map(|x| vec![*x]).collect(),
            _ => {}
        }
        let max = *self.pick(&[2usize, 3, 7, 19, 64, 300]);
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let lo = if self.chance(1, 10) { 0 } else { 1 };
            let n = self.range(lo, max).min(b.len() - i);
            out.push(b[i..i + n].to_vec());
            i += n;
        }
        out
    }
}
