//! A test case is a tape of numbers drawn by the property-testing library (or by
//! the fuzzer); generators read their choices from it. Shrinking the tape shrinks
//! the case: removing numbers shortens it, and smaller numbers pick earlier
//! alternatives. An exhausted tape yields zeros, i.e. the simplest choice.
pub struct Gen<'a> {
    tape: &'a [u32],
    pos: usize,
}

impl<'a> Gen<'a> {
    pub fn new(tape: &'a [u32]) -> Self {
        Gen { tape, pos: 0 }
    }
    /// Sets 60 % of what is left of the tape aside for a part of the case (the
    /// document, usually), so that the rest of the case has its share.
    pub fn sub(&mut self) -> Gen<'a> {
        let at = self.pos.min(self.tape.len());
        let n = self.left() * 3 / 5;
        self.pos = at + n;
        Gen { tape: &self.tape[at..at + n], pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn done(&self) -> bool {
        self.pos >= self.tape.len()
    }
    pub fn left(&self) -> usize {
        self.tape.len().saturating_sub(self.pos)
    }
    /// 0..n, 0 when n is 0
    pub fn below(&mut self, n: usize) -> usize {
        let v = self.raw();
        ((v as u64 * n as u64) >> 32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true in about `percent` of cases; false is the simple choice
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) >= 100 - percent
    }
    pub fn pick<'b, T: ?Sized>(&mut self, from: &'b [&'b T]) -> &'b T {
        from[self.below(from.len())]
    }
    pub fn pick_of<'b, T>(&mut self, from: &'b [T]) -> &'b T {
        &from[self.below(from.len())]
    }
    /// index into `weights` with probability proportional to them
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
}
