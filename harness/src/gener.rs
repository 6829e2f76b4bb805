//! Exhaustive enumeration of everything a nondeterministic generator can produce:
//! the generator draws bounded choices, and `all` walks the full choice tree.
#![allow(dead_code)]
pub struct Ch { seq: Vec<(u8, u8)>, pos: usize, replay: Option<Vec<u8>> }
impl Ch {
    /// Draw one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n < 256);
        if n == 1 { return 0; }
        if let Some(r) = &self.replay {
            let v = r[self.pos] as usize;
            assert!(v < n, "generator is not deterministic");
            self.pos += 1;
            return v;
        }
        if self.pos == self.seq.len() { self.seq.push((0, n as u8)); }
        let (v, m) = self.seq[self.pos];
        assert_eq!(m as usize, n, "generator is not deterministic");
        self.pos += 1;
        v as usize
    }
    pub fn of<'b, T>(&mut self, xs: &'b [T]) -> &'b T { &xs[self.pick(xs.len())] }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
}
/// Every choice sequence of the generator, in lexicographic order (None = branch discarded).
pub fn all<T>(mut g: impl FnMut(&mut Ch) -> Option<T>) -> Vec<Box<[u8]>> {
    let mut out = vec![];
    let mut c = Ch { seq: vec![], pos: 0, replay: None };
    loop {
        c.pos = 0;
        let keep = g(&mut c).is_some();
        c.seq.truncate(c.pos);
        if keep { out.push(c.seq.iter().map(|x| x.0).collect()); }
        loop {
            match c.seq.last_mut() {
                None => return out,
                Some(l) => { if l.0 + 1 < l.1 { l.0 += 1; break; } c.seq.pop(); }
            }
        }
    }
}
/// Re-run the generator on a recorded sequence.
pub fn replay<T>(s: &[u8], mut g: impl FnMut(&mut Ch) -> Option<T>) -> T {
    let mut c = Ch { seq: vec![], pos: 0, replay: Some(s.to_vec()) };
    g(&mut c).expect("recorded case")
}

/// Run `g` on every path of its choice tree until one fails; returns the number of paths.
pub fn explore<E>(mut g: impl FnMut(&mut Ch) -> Result<(), E>) -> Result<u64, E> {
    let mut c = Ch { seq: vec![], pos: 0, replay: None };
    let mut n = 0;
    loop {
        c.pos = 0;
        g(&mut c)?;
        n += 1;
        c.seq.truncate(c.pos);
        loop {
            match c.seq.last_mut() {
                None => return Ok(n),
                Some(l) => { if l.0 + 1 < l.1 { l.0 += 1; break; } c.seq.pop(); }
            }
        }
    }
}
impl Ch { pub fn path(&self) -> String { self.seq[..self.pos.min(self.seq.len())].iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(".") } }
