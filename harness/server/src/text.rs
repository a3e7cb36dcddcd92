use crate::sx;

/// Source text with symbolic bytes: `«ab»` is one byte that is `a` or `b`.
pub struct Text {
    pub s: String,
    pub holes: Vec<usize>,
}

impl Text {
    pub fn new(t: &str) -> Text {
        let mut b: Vec<u8> = Vec::new();
        let mut holes = Vec::new();
        let mut it = t.chars();
        while let Some(c) = it.next() {
            if c == '«' {
                let mut alts = Vec::new();
                for c in it.by_ref() {
                    if c == '»' {
                        break;
                    }
                    alts.push(c as u8);
                }
                holes.push(b.len());
                b.push(one_of(&alts));
            } else {
                let mut u = [0; 4];
                b.extend_from_slice(c.encode_utf8(&mut u).as_bytes());
            }
        }
        Text { s: unsafe { String::from_utf8_unchecked(b) }, holes }
    }
    pub fn hole(&self, k: usize) -> u8 {
        self.s.as_bytes()[self.holes[k]]
    }
    /// byte offset of the n-th occurrence of `m` in the template's fixed text
    pub fn at(&self, m: &str, n: usize) -> u32 {
        let mut from = 0;
        for k in 0.. {
            let p = from + find(&self.s.as_bytes()[from..], m.as_bytes()).expect("marker");
            if k == n {
                return p as u32;
            }
            from = p + 1;
        }
        unreachable!()
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..=h.len().checked_sub(n.len())?).find(|&i| &h[i..i + n.len()] == n)
}

/// a symbolic byte, decided here: later code sees one of the alternatives on each path
pub fn one_of(alts: &[u8]) -> u8 {
    let b = if alts.len() == 1 { return alts[0] } else { sx::u8() };
    for a in alts {
        if b == *a {
            return *a;
        }
    }
    sx::assume(false);
    0
}
