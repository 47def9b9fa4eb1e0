//! A choice sequence: every decision of the program generator is read from a
//! vector that proptest generates (and shrinks).  0 is the simplest choice.
pub struct G<'a> {
    v: &'a [u32],
    i: usize,
}

impl<'a> G<'a> {
    pub fn new(v: &'a [u32]) -> Self {
        G { v, i: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let r = self.v.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        r
    }
    pub fn n(&mut self, k: usize) -> usize {
        self.raw() as usize % k.max(1)
    }
    /// true in `pct` of 100 cases
    pub fn p(&mut self, pct: u32) -> bool {
        self.raw() % 100 >= 100 - pct.min(100)
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn w<T: Clone>(&mut self, v: &[(u32, T)]) -> T {
        let sum: u32 = v.iter().map(|x| x.0).sum();
        let mut r = self.raw() % sum.max(1);
        for (w, t) in v {
            if r < *w {
                return t.clone();
            }
            r -= w;
        }
        v[0].1.clone()
    }
}
