//! Stand-in for `notify`: a watcher which never reports anything, unless a harness feeds `EVENTS`.
use std::{path::{Path, PathBuf}, sync::{mpsc::Sender, Mutex}, time::Duration};
#[derive(Debug, Clone)]
pub enum DebouncedEvent { NoticeWrite(PathBuf), NoticeRemove(PathBuf), Create(PathBuf), Write(PathBuf), Chmod(PathBuf), Remove(PathBuf), Rename(PathBuf, PathBuf), Rescan, Error(Error, Option<PathBuf>) }
/// Harnesses learn from the count of the `Arc` that the event was consumed.
#[derive(Debug, Clone)]
pub struct Error(pub std::sync::Arc<()>);
pub enum RecursiveMode { Recursive, NonRecursive }
pub static EVENTS: Mutex<Option<Sender<DebouncedEvent>>> = Mutex::new(None);
pub struct RecommendedWatcher;
pub trait Watcher { fn watch<P: AsRef<Path>>(&mut self, p: P, m: RecursiveMode) -> std::result::Result<(), String>; }
impl Watcher for RecommendedWatcher { fn watch<P: AsRef<Path>>(&mut self, _: P, _: RecursiveMode) -> std::result::Result<(), String> { Ok(()) } }
pub fn watcher(tx: Sender<DebouncedEvent>, _: Duration) -> std::result::Result<RecommendedWatcher, String> { *EVENTS.lock().unwrap() = Some(tx); Ok(RecommendedWatcher) }
