//! A source of choices decoded from a `&[u32]`. Past the end every choice is 0,
//! which generators arrange to be their simplest option.

pub struct Src<'a> {
    data: &'a [u32],
    pub pos: usize,
    pub hash: u64,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Src<'a> {
        Src { data, pos: 0, hash: 0xcbf2_9ce4_8422_2325 }
    }

    fn next(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }

    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    }

    /// Uniform in `0..n`; 0 is simplest.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = self.next() as u64;
        let r = ((v * n as u64) >> 32) as usize;
        self.mix(r as u64 + 1);
        r
    }

    /// Uniform in `lo..=hi`; `lo` is simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn raw(&mut self) -> u32 {
        let v = self.next();
        self.mix(v as u64 + 7);
        v
    }

    /// Index into a weight table; index 0 is simplest.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
}
