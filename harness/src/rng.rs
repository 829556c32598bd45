// xorshift-multiply generator, seeded from VERIF_SEED
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

// ------------------------------------------------------------------ literals of the present sources
/// integers and texts which occur in /repo's present sources and did not when the contracts were written
/// (check.py writes the file named by VX_DICT): sizes and texts are drawn from them at times
struct Dict {
    ints: Vec<usize>,
    strs: Vec<String>,
}

fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], strs: vec![] };
        let s = std::env::var("VX_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in s.lines() {
            if let Some(n) = l.strip_prefix("i\t") {
                d.ints.extend(n.parse::<usize>().ok());
            } else if let Some(t) = l.strip_prefix("s\t") {
                let t = crate::unesc(t);
                if !t.is_empty() {
                    d.strs.push(t);
                }
            }
        }
        d
    })
}

impl Rng {
    /// mostly below `few`; at times around an integer of the sources, at times any order of magnitude up to `cap`
    pub fn size(&mut self, few: usize, cap: usize) -> usize {
        let d = dict();
        if !d.ints.is_empty() && self.chance(1, 6) {
            let n = *self.pick(&d.ints);
            let k = n.saturating_add(self.below(5)).saturating_sub(1);
            if k <= cap {
                return k;
            }
        }
        if self.chance(1, 150) {
            let mut k = few.max(2);
            while k < cap && self.chance(2, 3) {
                k *= 2;
            }
            return self.below(k.min(cap) + 1);
        }
        self.below(few)
    }
    /// an integer of the sources, give or take one
    pub fn dict_int(&mut self) -> Option<usize> {
        let d = dict();
        if d.ints.is_empty() || !self.chance(1, 3) {
            return None;
        }
        let n = *self.pick(&d.ints);
        Some(n.saturating_add(self.below(3)).saturating_sub(1))
    }
    /// a text of the sources, or a variation of it
    pub fn word(&mut self, num: usize, den: usize) -> Option<String> {
        let d = dict();
        if d.strs.is_empty() || !self.chance(num, den) {
            return None;
        }
        let w = self.pick(&d.strs).clone();
        Some(match self.below(10) {
            0 => w.to_uppercase(),
            1 => w.to_lowercase(),
            2 => w.chars().skip(1).collect(),
            3 => w.chars().take(w.chars().count().max(2) - 1).collect(),
            4 => format!("{}{}", w, w),
            _ => w,
        })
    }
    pub fn pick_str(&mut self, pool: &[&str]) -> String {
        match self.word(1, 5) {
            Some(w) => w,
            None => self.pick(pool).to_string(),
        }
    }
}
