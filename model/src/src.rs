//! A finite stream of choices. Exhausted or zero choices always mean "the simplest alternative", so that proptest's
//! vector shrinking (and the driver's choice-sequence reduction) shrinks everything decoded from a stream.

pub struct Src<'a> {
    d: &'a [u32],
    i: usize,
    /// deterministic expansion once the stream has been used up (never used when `None`)
    tail: Option<u64>,
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Src { d, i: 0, tail: None }
    }
    pub fn next(&mut self) -> u32 {
        let r = match self.d.get(self.i) {
            Some(v) => *v,
            None => match &mut self.tail {
                None => 0,
                Some(s) => {
                    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (*s >> 33) as u32
                }
            },
        };
        self.i += 1;
        r
    }
    pub fn used(&self) -> usize {
        self.i
    }
    /// uniform in 0..n (0 for n == 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.next() as usize % n
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct/100; a zero choice is `false` unless pct >= 100
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        if pct >= 100 {
            return true;
        }
        let v = self.next() % 100;
        v >= 100 - pct
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn ch(&mut self, s: &str) -> char {
        let v: Vec<char> = s.chars().collect();
        *self.pick(&v)
    }
    /// weighted choice; the first alternative is the simplest
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.next() % total;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // a zero choice leaves the order alone
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
