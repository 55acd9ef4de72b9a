//! Stand-in for `divvy` (git dependency, not available offline): the items ogma uses.
use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering}, Arc, Mutex};
use std::{borrow::Borrow, fmt, ops::Deref};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Str(Arc<String>);
impl Str {
    pub fn new<S: AsRef<str>>(s: S) -> Self { Str(Arc::new(s.as_ref().to_string())) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn to_mut(&mut self) -> &mut String { Arc::make_mut(&mut self.0) }
    pub fn make_mut(&mut self) -> &mut String { Arc::make_mut(&mut self.0) }
    pub fn get_mut(&mut self) -> Option<&mut String> { Arc::get_mut(&mut self.0) }
}
impl Deref for Str { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl AsRef<str> for Str { fn as_ref(&self) -> &str { &self.0 } }
impl Borrow<str> for Str { fn borrow(&self) -> &str { &self.0 } }
impl From<String> for Str { fn from(s: String) -> Self { Str(Arc::new(s)) } }
impl<'a> From<&'a str> for Str { fn from(s: &'a str) -> Self { Str::new(s) } }
impl<'a> From<&'a String> for Str { fn from(s: &'a String) -> Self { Str::new(s) } }
impl From<char> for Str { fn from(s: char) -> Self { s.to_string().into() } }
impl From<Str> for String { fn from(s: Str) -> Self { s.0.as_ref().clone() } }
impl fmt::Display for Str { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self.as_str(), f) } }
impl fmt::Debug for Str { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self.as_str(), f) } }
impl PartialEq<str> for Str { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
impl<'a> PartialEq<&'a str> for Str { fn eq(&self, o: &&'a str) -> bool { self.as_str() == *o } }
impl PartialEq<Str> for str { fn eq(&self, o: &Str) -> bool { self == o.as_str() } }
impl PartialOrd<str> for Str { fn partial_cmp(&self, o: &str) -> Option<std::cmp::Ordering> { self.as_str().partial_cmp(o) } }
impl PartialEq<String> for Str { fn eq(&self, o: &String) -> bool { self.as_str() == o } }
impl std::iter::FromIterator<char> for Str { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { i.into_iter().collect::<String>().into() } }

/// A shared flag.
#[derive(Clone, Debug)]
pub struct Switch(Arc<AtomicBool>);
impl Switch {
    pub fn off() -> Self { Switch(Arc::new(AtomicBool::new(false))) }
    pub fn on() -> Self { Switch(Arc::new(AtomicBool::new(true))) }
    pub fn get(&self) -> bool { self.0.load(Ordering::SeqCst) }
    pub fn flip_on(&self) { self.0.store(true, Ordering::SeqCst) }
    pub fn flip_off(&self) { self.0.store(false, Ordering::SeqCst) }
}

/// Progress channel; this stand-in also lets a harness cancel (at once, after a number of polls, or
/// after a number of reports) and read what was sent.
#[derive(Clone, Debug, Default)]
pub struct ProgressTx { cancel: Arc<AtomicBool>, after: Arc<AtomicUsize>, armed: bool, reports: Option<usize>, pub sent: Arc<Mutex<Vec<String>>> }
impl ProgressTx {
    pub fn dummy() -> Self { Self::default() }
    pub fn cancelling_after(polls: usize) -> Self { let x = ProgressTx { armed: true, ..Self::default() }; x.after.store(polls, Ordering::SeqCst); x }
    pub fn cancelling_after_reports(n: usize) -> Self { ProgressTx { reports: Some(n), ..Self::default() } }
    pub fn is_cancelled(&self) -> bool { self.cancel.load(Ordering::SeqCst) }
    pub fn cancel(&self) { self.cancel.store(true, Ordering::SeqCst) }
    pub fn cancelled(&self) -> bool {
        if self.armed && self.after.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_err() { self.cancel(); }
        if let Some(n) = self.reports { if self.sent.lock().unwrap().len() >= n { self.cancel(); } }
        self.cancel.load(Ordering::SeqCst)
    }
    pub fn send<P: Into<Option<f32>>, S: Into<String>>(&self, _: P, s: S) { self.sent.lock().unwrap().push(s.into()) }
}
