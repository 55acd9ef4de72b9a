//! Stand-in for the part of `itertools` that is used.
pub trait Itertools: Iterator {
    fn dedup(self) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
        Self::Item: PartialEq,
    {
        let mut v: Vec<Self::Item> = Vec::new();
        for x in self {
            if v.last() != Some(&x) {
                v.push(x);
            }
        }
        v.into_iter()
    }
}
impl<T: Iterator> Itertools for T {}
