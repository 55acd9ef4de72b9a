//! Stand-in for `simsearch`: case-insensitive containment and small edit distance.
pub struct SimSearch<I> { items: Vec<(I, String)> }
impl<I: Eq + std::hash::Hash + Ord + Copy> SimSearch<I> {
    pub fn new() -> Self { SimSearch { items: vec![] } }
    pub fn insert<S: AsRef<str>>(&mut self, id: I, s: S) { self.items.push((id, s.as_ref().to_lowercase())) }
    pub fn search(&self, p: &str) -> Vec<I> {
        let p = p.to_lowercase();
        let mut v: Vec<(usize, I)> = self.items.iter().filter_map(|(i, s)| { let d = dist(&p, s); (s.contains(&p) || d * 3 <= s.len().max(p.len())).then(|| (d, *i)) }).collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    }
}
fn dist(a: &str, b: &str) -> usize {
    let b: Vec<char> = b.chars().collect();
    let mut r: Vec<usize> = (0..=b.len()).collect();
    for (i, ca) in a.chars().enumerate() {
        let mut prev = r[0]; r[0] = i + 1;
        for j in 0..b.len() { let t = r[j + 1]; r[j + 1] = (prev + (ca != b[j]) as usize).min(t + 1).min(r[j] + 1); prev = t; }
    }
    r[b.len()]
}
