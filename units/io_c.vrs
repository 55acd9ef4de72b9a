//@rule use_notify stmt
use ::notify::{DebouncedEvent::*, *};
//@=>
use DebouncedEvent::*;
//@endrule
//@rule mk_channel stmt
let (wsx, wrx) = std::sync::mpsc::channel();
//@=>
//@endrule
//@rule mk_watcher stmt
let mut watcher = $e;
//@=>
//@endrule
//@rule watch stmt
let _ = watcher.watch(&canon_root, RecursiveMode::Recursive);
//@=>
//@endrule
//@rule new_set stmt
let mut set = HashSet::default();
//@=>
let mut set = SetS::new();
//@endrule
//@rule for_events
for $p_e in wrx.try_iter() { $s_body }
//@=>
{ let mut __evs = v_events(w); let __n = __evs.len(); let mut __k: usize = 0; while __k < __n { let $p_e = __evs.remove(0); __k += 1; $s_body } }
//@endrule
//@rule drain_map
set.drain().map(|$p_x| $e)
//@=>
{ let mut __ps = set.drain(); let __n = __ps.len(); let mut __r: Vec<PathBuf> = Vec::new(); let mut __k: usize = 0; while __k < __n { let $p_x = __ps.remove(0); __k += 1; __r.push($e); } __r }
//@endrule
//@rule rpc
FSCACHE.remove_path_changes($e)
//@=>
FsCache_remove_path_changes($e, w)
//@endrule
//@rule get_mut_map
$b_l.get_mut($k).map(|$p_x| $x)
//@=>
match w.map.get_mut($k) { Some($p_x) => Some($x), None => None }
//@endrule
//@rule opt_try
$r.and_then(|$p_x| T::try_from($y).ok())
//@=>
match $r { Some($p_x) => match T::try_from($y) { Ok(__t) => Some(__t), Err(_) => None }, None => None }
//@endrule
//@rule ins_map
lock.insert($k, ($a, $b))
//@=>
w.map.insert($k, ($a, $b))
//@endrule
//@rule retain_map
$b_l.retain(|$p_k, $p_v| $c)
//@=>
{ let __l = $b_l; let __es = w.map.take_all(); let mut __i: usize = 0; while __i < __es.len() { let __hit = { let $p_k = &__es[__i].0; let $p_v = &__es[__i].1; $c }; if __hit { w.map.put(&__es[__i]); } __i += 1; } }
//@endrule
//@rule lock_let stmt
let mut $i_l = self.map.lock();
//@=>
let mut $i_l = v_hold(w);
//@endrule
//@rule paths_map
paths.map(|$p_x| $b_y.to_path_buf())
//@=>
paths
//@endrule
//@rule to_set
paths.collect()
//@=>
v_to_set(&paths)
//@endrule
//@rule pathset type
HashSet<PathBuf>
//@=>
SetS
//@endrule
//@rule age
$b_v.0.elapsed() < $e
//@=>
v_younger(&$b_v.0, $e)
//@endrule
//@rule ioerr
io::Error::new($s_a)
//@=>
v_io_err()
//@endrule
//@rule errio
Error::io($s_a)
//@=>
v_err_io()
//@endrule
//@rule res_map_err
$r.map_err(|$p_e| $x)
//@=>
match $r { Ok(__v) => Ok(__v), Err($p_e) => Err($x) }
//@endrule
//@rule res_and_then
$r.and_then(|$p_e| $x)
//@=>
match $r { Ok($p_e) => $x, Err(__e) => Err(__e) }
//@endrule
//@rule res_writer
$r.map(std::io::BufWriter::new)
//@=>
$r
//@endrule
//@rule res_map
$r.map(|$p_x| $x)
//@=>
match $r { Ok($p_x) => Ok($x), Err(__e) => Err(__e) }
//@endrule
//@rule unwrap_dot2
$r.unwrap_or_else(|_| PathBuf::from("."))
//@=>
match $r { Ok(__x) => __x, Err(_) => v_dot() }
//@endrule
//@rule tabmap type
HashMap<TabId, PathBuf>
//@=>
TabMap
//@endrule
//@rule contains
file_flags.contains($a)
//@=>
v_contains(file_flags, $a)
//@endrule
//@rule contains2
r.contains($a)
//@=>
v_contains(&r, $a)
//@endrule
//@rule replace1
file_flags.replace($a, $b)
//@=>
v_replace(file_flags, $a, $b)
//@endrule
//@rule replace2
r.replace($a, $b)
//@=>
v_replace(&r, $a, $b)
//@endrule
//@rule tostr
file_flags.to_string()
//@=>
v_string(file_flags)
//@endrule
//@rule pfile
ogma::rt::bat::parse_file($e)
//@=>
v_parse_file($e, w)
//@endrule
//@rule tabget
self.tabs.get(&tab_id)
//@=>
self.tabs.get(&tab_id)
//@endrule
//@rule unwrap_dot
$r.unwrap_or_else(|_| std::path::PathBuf::from("."))
//@=>
match $r { Ok(__x) => __x, Err(_) => v_dot() }
//@endrule
//@rule for_comps
for $p_c in $e.components() { $s_body }
//@=>
{ let __cs = v_components($e); let mut __k: usize = 0; while __k < __cs.len() { let $p_c = __cs[__k]; __k += 1; $s_body } }
//@endrule
//@rule path_t type
&std::path::Path
//@=>
&PathBuf
//@endrule
//@rule path_t2 type
&Path
//@=>
&PathBuf
//@endrule
//@rule pathbuf_t type
std::path::PathBuf
//@=>
PathBuf
//@endrule
//@rule as_ref
$b_p.as_ref()
//@=>
$b_p
//@endrule
//@rule mkdir
std::fs::create_dir_all($e)
//@=>
v_mkdir($e, w)
//@endrule
//@rule create
std::fs::File::create($e)
//@=>
v_create(&$e, w)
//@endrule
//@rule fsread
std::fs::read($e)
//@=>
v_read($e, w)
//@endrule
//@rule decode
decode(&$e, DecoderTrap::Strict, UTF_8).0
//@=>
v_decode(&$e)
//@endrule
//@rule readf
read_file($e)
//@=>
read_file($e, w)
//@endrule
//@rule mkdirs_c
mkdirs(&$e)
//@=>
mkdirs(&$e, w)
//@endrule
//@rule writef
write_file($s_a)
//@=>
v_write_file($s_a, w)
//@endrule
//@rule str_into stmt
let s: Str = $e.into();
//@=>
let s: Str = v_str($e);
//@endrule
//@rule resolve1
path.resolve(|| Value::Nil, &cx)?.try_into()?
//@=>
v_resolve(path, Value::Nil, &cx)?
//@endrule
//@rule resolve
$b_a.resolve(|| $v, &cx)?.try_into()?
//@=>
v_resolve(&$b_a, $v, &cx)?
//@endrule
//@rule get_tab
FSCACHE.get::<Table>($e)
//@=>
FsCache_get::<Table>($e, w)
//@endrule
//@rule get_str
FSCACHE.get::<Str>($e)
//@=>
FsCache_get::<Str>($e, w)
//@endrule
//@rule changes_c
FSCACHE.changes()
//@=>
FsCache_changes(w)
//@endrule
//@rule insert_c
FSCACHE.insert($a, $b, $c)
//@=>
FsCache_insert($a, $b, $c, w)
//@endrule
//@rule parse_table
Table::from(::table::parse_dsv($c, &s).map_obj(|s| Value::Str(Str::new(s))))
//@=>
v_parse_table($c, &s)
//@endrule
//@rule done_o
cx.done_o($e)
//@=>
Ok(v_into($e))
//@endrule
//@rule done
cx.done($e)
//@=>
Ok($e)
//@endrule
//@rule listing
make_dir_table($e, $t)
//@=>
v_list($e, w)
//@endrule
//@rule sleep stmt
std::thread::sleep($e);
//@=>
//@endrule
//@rule lock
self.map.lock()
//@=>
v_lock(w)
//@endrule
//@rule ld
self.changes.load($e)
//@=>
v_changes(w)
//@endrule
//@rule fa
self.changes.fetch_add(1, $e)
//@=>
v_bump(w, Ghost(reported))
//@endrule
//@rule selfchanges
self.changes()
//@=>
FsCache_changes(w)
//@endrule
//@rule keyfrom
Key::from::<T>($e)
//@=>
Key_from::<T>($e)
//@endrule
//@rule use_enc stmt
use ::encoding::{all::UTF_8, decode, DecoderTrap};
//@=>
//@endrule
//@rule use_comp stmt
use std::path::Component::*;
//@=>
use Component::*;
//@endrule
//@src ogma/src/lang/impls/intrinsics/io.rs
//@known strip_root scrub_filepath check_below_root mkdirs read_file
/// a name of a directory or file
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Name { p: u8 }
#[derive(Clone, Copy)]
pub enum Component { Prefix(Name), RootDir, CurDir, ParentDir, Normal(Name) }
pub type Comps = Seq<Component>;
// assume: std's Path operations act on the components of the paths as std documents
/// stands for Path and PathBuf
#[verifier::external_body]
pub struct PathBuf { p: u8 }
impl PathBuf { pub uninterp spec fn view(&self) -> Comps; }
pub open spec fn anchored(b: Comps) -> bool { b.len() > 0 && (b[0] is RootDir || b[0] is Prefix) }
pub open spec fn join(a: Comps, b: Comps) -> Comps {
    if anchored(b) || a.len() == 0 { b } else if b.len() > 0 && b[0] is CurDir { a + b.skip(1) } else { a + b }
}
/// the components of a path in text form
pub uninterp spec fn comps(s: Seq<char>) -> Comps;
/// what a path leads to: the same place by a path without links, `.` and `..`
// assume: directories and links stay as they are while an expression is evaluated
pub uninterp spec fn canon(p: Comps) -> Option<Comps>;
pub open spec fn plain(s: Comps) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Normal }
pub trait AsPath: Sized { spec fn cs(&self) -> Comps; }
impl<'a> AsPath for &'a PathBuf { open spec fn cs(&self) -> Comps { (*self)@ } }
impl AsPath for PathBuf { open spec fn cs(&self) -> Comps { self@ } }
impl<'a> AsPath for &'a Str { open spec fn cs(&self) -> Comps { comps((*self)@) } }
impl PathBuf {
    #[verifier::external_body] pub fn join<P: AsPath>(&self, p: P) -> (r: PathBuf) ensures r@ == join(self@, p.cs()) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures match r { Ok(c) => canon(self@) == Some(c@) && c@.len() > 0 && anchored(c@) && plain(c@.skip(1)), Err(_) => canon(self@) is None }
    { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix(&self, p: &PathBuf) -> (r: Result<PathBuf, IoError>)
        ensures match r { Ok(s) => self@ == p@ + s@, Err(_) => !p@.is_prefix_of(self@) }
    { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<PathBuf>)
        ensures match r { Some(q) => self@.len() > 0 && q@ == self@.drop_last(), None => self@.len() == 0 || anchored(self@) && self@.len() == 1 }
    { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_dot() -> (r: PathBuf) ensures r@ == seq![Component::CurDir] { unimplemented!() }
#[verifier::external_body]
pub fn v_components(p: PathBuf) -> (r: Vec<Component>) ensures r@ == p@ { unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
pub struct IoError { p: u8 }
impl IoError { #[verifier::external_body] pub fn kind(&self) -> u8 { unimplemented!() } }
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub fn v_io_err() -> IoError { unimplemented!() }
#[verifier::external_body]
pub fn v_err_io() -> Error { unimplemented!() }
/// text
#[verifier::external_body]
pub struct Str { p: u8 }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<char>;
    pub fn as_str(&self) -> (r: &Str) ensures r@ == self@ { self }
    #[verifier::external_body] pub fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Table { p: u8 }
impl Table { #[verifier::external_body] pub fn clone(&self) -> (r: Table) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Def { p: u8 }
pub enum Type { Nil, Bool, Num, Str, Tab, TabRow, Def(Def) }
pub enum Value { Nil, Tab(Table), Str(Str), Other(Def) }
impl Value { #[verifier::external_body] pub fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
/// depth below the start after the first n components, -1 once one of them climbed above it
pub open spec fn level(s: Comps, n: int) -> int decreases n {
    if n <= 0 { 0 } else {
        let d = level(s, n - 1);
        if d < 0 { -1 } else { match s[n - 1] { Component::CurDir => d, Component::Normal(_) => d + 1, Component::ParentDir => d - 1, _ => -1 } }
    }
}
/// p is root followed by components none of which climbs above root
pub open spec fn inside(root: Comps, p: Comps) -> bool { root.is_prefix_of(p) && level(p.skip(root.len() as int), p.len() - root.len()) >= 0 }
/// and it is not root itself
pub open spec fn below(root: Comps, p: Comps) -> bool { root.is_prefix_of(p) && level(p.skip(root.len() as int), p.len() - root.len()) > 0 }
pub proof fn level_ext(a: Comps, b: Comps, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures level(a, n) == level(b, n)
    decreases n
{ if n > 0 { level_ext(a, b, n - 1); } }
pub proof fn level_plain(s: Comps, n: int)
    requires plain(s), 0 <= n <= s.len()
    ensures level(s, n) == n
    decreases n
{ if n > 0 { level_plain(s, n - 1); } }
pub proof fn level_neg(s: Comps, n: int, m: int)
    requires 0 <= n <= m, level(s, n) < 0
    ensures level(s, m) < 0
    decreases m
{ if n < m { level_neg(s, n, m - 1); } }
pub proof fn inside_plain(root: Comps, s: Comps)
    requires plain(s)
    ensures inside(root, root + s), join(root, s) == root + s
{ level_plain(s, s.len() as int); assert((root + s).skip(root.len() as int) =~= s); if root.len() == 0 { assert(root + s =~= s); } }
pub proof fn parent_inside(root: Comps, p: Comps)
    requires below(root, p)
    ensures p.len() > root.len(), inside(root, p.drop_last())
{
    let s = p.skip(root.len() as int);
    let t = p.drop_last().skip(root.len() as int);
    assert(p.len() > root.len());
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
    level_ext(t, s, t.len() as int);
    assert(level(s, s.len() as int) > 0);
    if level(s, s.len() - 1) < 0 { level_neg(s, s.len() - 1, s.len() as int); }
}
/// the contents of the files at a moment
#[verifier::external_body]
pub struct Fs { p: u8 }
/// the text of the file at a place
pub uninterp spec fn text_at(f: Fs, p: Comps) -> Option<Seq<char>>;
pub uninterp spec fn table_of(sep: char, t: Seq<char>) -> Table;
/// v is what opening a file with this text as this type gives
pub open spec fn is_value(ty: Type, t: Seq<char>, v: Value) -> bool {
    match ty { Type::Tab => v == Value::Tab(table_of(',', t)), Type::Str => v is Str && v->Str_0@ == t, _ => false }
}
#[verifier::external_body]
pub struct Instant { p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
#[verifier::external_body]
pub fn v_younger(i: &Instant, d: Duration) -> bool { unimplemented!() }
pub struct Key(pub PathBuf, pub Type);
pub type K = (Comps, Type);
pub open spec fn kv(k: Key) -> K { (k.0@, k.1) }
// assume: HashMap and HashSet are maps and sets over the equality of their keys
#[verifier::external_body]
pub struct MapS { p: u8 }
impl MapS {
    pub uninterp spec fn view(&self) -> Map<K, (Instant, Value)>;
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &Key) -> (r: Option<&'a mut (Instant, Value)>)
        ensures match r {
            None => !old(self)@.contains_key(kv(*k)) && final(self)@ == old(self)@,
            Some(v) => old(self)@.contains_key(kv(*k)) && *v == old(self)@[kv(*k)] && final(self)@ == old(self)@.insert(kv(*k), *final(v)),
        }
    { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Key, v: (Instant, Value))
        ensures final(self)@ == old(self)@.insert(kv(k), v)
    { unimplemented!() }
    #[verifier::external_body] pub fn take_all(&mut self) -> (r: Vec<(Key, (Instant, Value))>)
        ensures final(self)@ == Map::<K, (Instant, Value)>::empty(), forall|i: int| 0 <= i < r@.len() ==> old(self)@.contains_pair(kv((#[trigger] r@[i]).0), r@[i].1)
    { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, e: &(Key, (Instant, Value)))
        ensures final(self)@ == old(self)@.insert(kv(e.0), e.1)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SetS { p: u8 }
impl SetS {
    pub uninterp spec fn view(&self) -> Set<Comps>;
    #[verifier::external_body] pub fn contains(&self, p: &PathBuf) -> (r: bool) ensures r == self@.contains(p@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Comps>::empty()) { unimplemented!() }
}
pub open spec fn pathset(v: Seq<PathBuf>) -> Set<Comps> { v.map_values(|p: PathBuf| p@).to_set() }
#[verifier::external_body]
pub fn v_to_set(v: &Vec<PathBuf>) -> (r: SetS) ensures r@ == pathset(v@) { unimplemented!() }
pub struct World {
    /// the root the expression is evaluated in, and the place it leads to
    pub root: Ghost<Comps>,
    pub croot: Ghost<Comps>,
    /// the places touched
    pub touched: Ghost<Seq<(int, Comps)>>,
    pub fs: Ghost<Fs>,
    /// files (below the root) with changes that were not reported to the cache yet
    pub pending: Ghost<Set<Comps>>,
    pub changes: Ghost<int>,
    /// the moment at which the content was taken
    pub last: Ghost<(Fs, Set<Comps>)>,
    /// whether the map is locked
    pub held: Ghost<bool>,
    pub map: MapS,
}
/// v is what opening the file k as this type gave at a moment, or has given before a change not reported yet
pub open spec fn fresh(f: Fs, pending: Set<Comps>, croot: Comps, k: Comps, ty: Type, v: Value) -> bool {
    pending.contains(k) || (text_at(f, croot + k) is Some && is_value(ty, text_at(f, croot + k)->Some_0, v))
}
/// every cached value is fresh
pub open spec fn ok(w: World) -> bool {
    forall|k: K| #[trigger] w.map@.contains_key(k) ==> fresh(w.fs@, w.pending@, w.croot@, k.0, k.1, w.map@[k].1)
}
/// what others may do in between: any file may change, and then is pending; reports are counted
// assume: other threads use the cache by these functions; a file is read at one moment; the counter does not wrap
pub open spec fn moved(o: World, n: World) -> bool {
    &&& ok(n) && n.root == o.root && n.croot == o.croot && n.touched == o.touched && n.last == o.last && n.held == o.held
    &&& n.changes@ >= o.changes@
    &&& n.changes@ == o.changes@ ==> forall|k: Comps| !(#[trigger] n.pending@.contains(k)) ==> !o.pending@.contains(k) && text_at(n.fs@, n.croot@ + k) == text_at(o.fs@, o.croot@ + k)
}
// assume: the watched root is the root expressions are evaluated in
pub open spec fn rooted(w: World, cx: Context) -> bool { w.root@ == cx.root@ && canon(cx.root@) == Some(w.croot@) && anchored(w.croot@) }
pub struct Context<'a> { pub root: &'a PathBuf, pub wd: &'a PathBuf }
#[verifier::external_body]
pub struct File { p: u8 }
/// 1: created or overwritten, 2: created as directories, 3: read, 4: listed
pub open spec fn touch(o: World, n: World, k: int, p: Comps) -> bool {
    &&& moved(World { touched: Ghost(o.touched@.push((k, p))), ..o }, n)
}
#[verifier::external_body]
pub fn v_create(p: &PathBuf, w: &mut World) -> (r: Result<File, IoError>)
    requires ok(*old(w)), below(old(w).root@, p@)
    ensures touch(*old(w), *final(w), 1, p@)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_mkdir(p: PathBuf, w: &mut World) -> (r: Result<(), IoError>)
    requires ok(*old(w)), inside(old(w).root@, p@)
    ensures touch(*old(w), *final(w), 2, p@)
{ unimplemented!() }
pub uninterp spec fn arg_gives(a: Argument, v: Value, cx: Context, p: Seq<char>) -> bool;
#[verifier::external_body]
pub struct Argument { p: u8 }
// assume: an argument gives some text
#[verifier::external_body]
pub fn v_resolve(a: &Argument, v: Value, cx: &Context) -> (r: Result<Str, Error>)
    ensures r is Ok ==> arg_gives(*a, v, *cx, r->Ok_0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_write_file(f: &mut File, v: Value, w: &mut World) -> (r: Result<(), IoError>)
    requires ok(*old(w))
    ensures moved(*old(w), *final(w))
{ unimplemented!() }
#[verifier::external_body]
pub fn v_read(p: PathBuf, w: &mut World) -> (r: Result<Bytes, IoError>)
    requires ok(*old(w)), inside(old(w).root@, p@)
    ensures ok(*final(w)), touch(*old(w), World { last: old(w).last, ..*final(w) }, 3, p@), final(w).last@ == (final(w).fs@, final(w).pending@),
        r is Ok && canon(p@) is Some ==> text_at(final(w).fs@, canon(p@)->Some_0) == text_of(r->Ok_0)
{ unimplemented!() }
#[verifier::external_body]
/// the table lists this directory
pub uninterp spec fn listing(t: Table, p: Comps) -> bool;
pub open spec fn listed(w: World, v: Value, p: Comps) -> bool { v is Tab && listing(v->Tab_0, p) && w.touched@.last() == (4int, p) }
#[verifier::external_body]
pub fn v_list<P: AsPath>(p: P, w: &mut World) -> (r: Result<Table, Error>)
    requires ok(*old(w)), inside(old(w).root@, p.cs())
    ensures touch(*old(w), *final(w), 4, p.cs()), r is Ok ==> listing(r->Ok_0, p.cs())
{ unimplemented!() }
#[verifier::external_body]
pub struct Bytes { p: u8 }
/// a file that is not text reads as none
pub uninterp spec fn text_of(b: Bytes) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn v_decode(b: &Bytes) -> (r: Result<String, DecodeErr>)
    ensures r is Ok <==> text_of(*b) is Some, r is Ok ==> text_of(*b) == Some(r->Ok_0@)
{ unimplemented!() }
#[verifier::external_body]
pub struct DecodeErr { p: u8 }
#[verifier::external_body]
pub fn v_str(s: String) -> (r: Str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_parse_table(c: char, s: &Str) -> (r: Table) ensures r == table_of(c, s@) { unimplemented!() }
pub trait Cached: Sized {
    spec fn ty() -> Type;
    spec fn val(self) -> Value;
    fn as_type() -> (r: Type) ensures r == Self::ty();
    fn try_from(v: Value) -> (r: Result<Self, Error>) ensures r is Ok ==> r->Ok_0.val() == v;
    fn into(self) -> (r: Value) ensures r == self.val();
}
impl Cached for Table {
    open spec fn ty() -> Type { Type::Tab }
    open spec fn val(self) -> Value { Value::Tab(self) }
    fn as_type() -> Type { Type::Tab }
    fn try_from(v: Value) -> Result<Table, Error> { match v { Value::Tab(t) => Ok(t), _ => Err(v_err_io()) } }
    fn into(self) -> Value { Value::Tab(self) }
}
impl Cached for Str {
    open spec fn ty() -> Type { Type::Str }
    open spec fn val(self) -> Value { Value::Str(self) }
    fn as_type() -> Type { Type::Str }
    fn try_from(v: Value) -> Result<Str, Error> { match v { Value::Str(t) => Ok(t), _ => Err(v_err_io()) } }
    fn into(self) -> Value { Value::Str(self) }
}
pub fn v_into<T: Cached>(t: T) -> (r: Value) ensures r == t.val() { t.into() }
#[verifier::external_body]
pub struct Lock { p: u8 }
/// taking the lock for the rest of the function
#[verifier::external_body]
pub fn v_hold(w: &mut World) -> (r: Lock)
    requires ok(*old(w)), !old(w).held@
    ensures moved(World { held: Ghost(true), ..*old(w) }, *final(w))
{ unimplemented!() }
/// taking the lock for one statement
#[verifier::external_body]
pub fn v_lock(w: &mut World) -> (r: Lock)
    requires ok(*old(w)), !old(w).held@
    ensures moved(*old(w), *final(w)), !final(w).held@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_changes(w: &mut World) -> (r: usize)
    requires ok(*old(w))
    ensures moved(*old(w), *final(w)), r == final(w).changes@, final(w).held == old(w).held
{ unimplemented!() }
/// the moment at which the reported changes count as reported
#[verifier::external_body]
pub fn v_bump(w: &mut World, reported: Ghost<Set<Comps>>)
    requires old(w).held@
    ensures *final(w) == (World { changes: Ghost(old(w).changes@ + 1), pending: Ghost(old(w).pending@.difference(reported@)), ..*old(w) })
{ unimplemented!() }
/// the value was read when the counter stood at `since` or later
pub open spec fn since_ok(w: World, since: int, k: Comps, ty: Type, v: Value) -> bool {
    since <= w.changes@ && (w.changes@ == since ==> fresh(w.fs@, w.pending@, w.croot@, k, ty, v))
}
//@src ogma/src/rt/fscache.rs
//@fn Key::from as=Key_from
//@sig fn Key_from<T: Cached>(path: &PathBuf) -> (ret: Key)
    ensures kv(ret) == (path@, T::ty())
//@endfn
//@fn FsCache::get as=FsCache_get
//@sig fn FsCache_get<T: Cached>(path: &PathBuf, w: &mut World) -> (ret: Option<T>)
    requires ok(*old(w)), !old(w).held@
    ensures
        moved(World { last: final(w).last, ..*old(w) }, *final(w)), final(w).last@ == (final(w).fs@, final(w).pending@), !final(w).held@,
        ret is Some ==> fresh(final(w).fs@, final(w).pending@, final(w).croot@, path@, T::ty(), ret->Some_0.val()),
//@tail
    proof { w.last = Ghost((w.fs@, w.pending@)); w.held = Ghost(false); }
//@endfn
//@fn FsCache::changes as=FsCache_changes
//@sig fn FsCache_changes(w: &mut World) -> (ret: usize)
    requires ok(*old(w))
    ensures moved(*old(w), *final(w)), ret == final(w).changes@, final(w).held == old(w).held
//@endfn
//@fn FsCache::insert as=FsCache_insert
//@sig fn FsCache_insert<T: Cached>(path: &PathBuf, value: T, since: usize, w: &mut World)
    requires ok(*old(w)), !old(w).held@, since_ok(*old(w), since as int, path@, T::ty(), value.val())
    ensures moved(*old(w), *final(w)), !final(w).held@
//@tail
    proof { w.held = Ghost(false); }
//@endfn
//@fn FsCache::remove_expired as=FsCache_remove_expired
//@sig fn FsCache_remove_expired(age: Duration, w: &mut World)
    requires ok(*old(w)), !old(w).held@
    ensures moved(*old(w), *final(w))
//@before 0
    let ghost w1 = *w;
//@loop 0
    invariant
        __i <= __es@.len(),
        forall|i: int| 0 <= i < __es@.len() ==> fresh(w1.fs@, w1.pending@, w1.croot@, kv((#[trigger] __es@[i]).0).0, kv(__es@[i].0).1, __es@[i].1.1),
        ok(*w), *w == (World { map: w.map, ..w1 }),
    decreases __es@.len() - __i
//@endfn
//@fn FsCache::remove_path_changes as=FsCache_remove_path_changes
//@sig fn FsCache_remove_path_changes(paths: Vec<PathBuf>, w: &mut World)
    requires ok(*old(w)), !old(w).held@
    ensures ok(*final(w)), final(w).croot == old(w).croot, !final(w).held@, forall|i: int| 0 <= i < paths@.len() ==> !final(w).pending@.contains((#[trigger] paths@[i])@)
//@params self paths0
//@tail
    proof { w.held = Ghost(false); }
//@head
    let paths = paths0;
    let ghost reported = pathset(paths@);
    proof {
        let m = paths@.map_values(|p: PathBuf| p@);
        assert forall|i: int| 0 <= i < paths@.len() implies reported.contains((#[trigger] paths@[i])@) by { assert(m[i] == paths@[i]@); assert(m.contains(m[i])); }
    }
//@before 0
    let ghost w1 = *w;
    assert(w1.pending@ =~= w1.pending@.difference(reported));
//@loop 0
    invariant
        __i <= __es@.len(),
        forall|i: int| 0 <= i < __es@.len() ==> fresh(w1.fs@, w1.pending@.union(reported), w1.croot@, kv((#[trigger] __es@[i]).0).0, kv(__es@[i].0).1, __es@[i].1.1),
        ok(*w), paths@ == reported, w1.pending@ == w1.pending@.difference(reported), *w == (World { map: w.map, ..w1 }),
    decreases __es@.len() - __i
//@endfn
pub enum DebouncedEvent { NoticeWrite(PathBuf), NoticeRemove(PathBuf), Create(PathBuf), Write(PathBuf), Chmod(PathBuf), Remove(PathBuf), Rename(PathBuf, PathBuf), Rescan }
/// the content of p may have changed by this event
pub open spec fn changes(e: DebouncedEvent, p: Comps) -> bool {
    match e {
        DebouncedEvent::Create(a) => a@ == p,
        DebouncedEvent::Write(a) => a@ == p,
        DebouncedEvent::Remove(a) => a@ == p,
        DebouncedEvent::Rename(a, b) => a@ == p || b@ == p,
        _ => false,
    }
}
impl SetS {
    #[verifier::external_body] pub fn new() -> (r: SetS) ensures r@ == Set::<Comps>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<Comps>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: PathBuf) ensures final(self)@ == old(self)@.insert(p@) { unimplemented!() }
    #[verifier::external_body] pub fn drain(&mut self) -> (r: Vec<PathBuf>)
        ensures final(self)@ == Set::<Comps>::empty(), forall|p: Comps| #[trigger] old(self)@.contains(p) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == p,
            forall|i: int| 0 <= i < r@.len() ==> old(self)@.contains((#[trigger] r@[i])@),
    { unimplemented!() }
}
// assume: the watcher tells of each change of a file below the root, by the path of the file below the root's place
#[verifier::external_body]
pub fn v_events(w: &mut World) -> (r: Vec<DebouncedEvent>)
    requires ok(*old(w))
    ensures moved(*old(w), *final(w)), forall|i: int, p: Comps| 0 <= i < r@.len() && #[trigger] changes(r@[i], p) ==> old(w).croot@.is_prefix_of(p)
{ unimplemented!() }
//@fn watch_fs noprobe
//@sig #[verifier::exec_allows_no_decreases_clause] fn watch_fs(canon_root: PathBuf, w: &mut World) -> (ret: Result<(), Error>)
    requires ok(*old(w)), !old(w).held@, old(w).croot@ == canon_root@
    ensures ret is Err
//@loop 0
    invariant ok(*w), !w.held@, w.croot@ == canon_root@
//@loophead 0
    let ghost mut evs: Seq<DebouncedEvent> = Seq::empty();
    let ghost mut all: Set<Comps> = Set::empty();
    let ghost mut ps: Seq<PathBuf> = Seq::empty();
    let ghost mut rs: Seq<PathBuf> = Seq::empty();
//@before 1
    proof { evs = __evs@; }
//@loop 1
    invariant
        __k <= __n, __n == evs.len(), __evs@ =~= evs.subrange(__k as int, __n as int), ok(*w), !w.held@, w.croot@ == canon_root@,
        forall|i: int, p: Comps| 0 <= i < __k && #[trigger] changes(evs[i], p) ==> set@.contains(p),
        forall|p: Comps| #[trigger] set@.contains(p) ==> canon_root@.is_prefix_of(p),
        forall|i: int, p: Comps| 0 <= i < __n && #[trigger] changes(evs[i], p) ==> canon_root@.is_prefix_of(p),
    decreases __n - __k
//@loophead 1
    let ghost e0 = evs[__k as int];
    let ghost s0 = set@;
    assert(__evs@[0] == e0);
//@looptail 1
    assert(forall|p: Comps| #[trigger] set@.contains(p) ==> s0.contains(p) || changes(e0, p));
    assert(forall|p: Comps| changes(e0, p) ==> #[trigger] set@.contains(p));
//@after 1
    proof { all = set@; }
//@before 2
    proof { ps = __ps@; }
//@loop 2
    invariant
        __k <= __n, __n == ps.len(), __ps@ =~= ps.subrange(__k as int, __n as int), __r@.len() == __k, ok(*w), !w.held@, w.croot@ == canon_root@,
        forall|i: int| 0 <= i < __n ==> canon_root@.is_prefix_of((#[trigger] ps[i])@),
        forall|i: int| 0 <= i < __k ==> (#[trigger] ps[i])@ == canon_root@ + __r@[i]@,
    decreases __n - __k
//@loophead 2
    assert(__ps@[0] == ps[__k as int]);
//@after 2
    proof { rs = __r@; }
//@looptail 0
    proof {
        assert forall|i: int, p: Comps| 0 <= i < evs.len() && #[trigger] changes(evs[i], canon_root@ + p) implies !w.pending@.contains(p) by {
            assert(all.contains(canon_root@ + p));
            let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j])@ == canon_root@ + p;
            assert((canon_root@ + p).skip(canon_root@.len() as int) =~= p);
            assert((canon_root@ + rs[j]@).skip(canon_root@.len() as int) =~= rs[j]@);
            assert(rs[j]@ == p);
        }
    }
    // everything told of is no longer cached, and counts as reported
    assert(forall|i: int, p: Comps| 0 <= i < evs.len() && #[trigger] changes(evs[i], canon_root@ + p) ==> !w.pending@.contains(p));
//@endfn
//@src ogma/src/lang/impls/intrinsics/io.rs
//@fn strip_root
//@sig fn strip_root(wd: &PathBuf, root: &PathBuf) -> (ret: Result<PathBuf, IoError>)
    requires anchored(wd@), plain(wd@.skip(1))
    ensures
        ret is Ok ==> canon(root@) is Some && wd@ == canon(root@)->Some_0 + ret->Ok_0@ && plain(ret->Ok_0@)
            && wd@.skip(canon(root@)->Some_0.len() as int) == ret->Ok_0@ && inside(root@, join(root@, ret->Ok_0@)),
        ret is Err && canon(root@) is Some ==> !canon(root@)->Some_0.is_prefix_of(wd@),
//@head
    let ghost r0 = root@;
//@tail
    proof {
        if __vret is Ok {
            let r = __vret->Ok_0@;
            let n = wd@.len() - r.len();
            assert(n > 0 && forall|i: int| 0 <= i < r.len() ==> r[i] == #[trigger] wd@.skip(1)[n + i - 1]);
            assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == wd@.skip(1)[n + i - 1]);
            assert(wd@.skip(n as int) =~= r);
            inside_plain(r0, r);
        }
    }
//@endfn
//@fn scrub_filepath
//@sig fn scrub_filepath(path: &Str, cx: &Context) -> (ret: Result<PathBuf, IoError>)
    ensures
        ret is Ok ==> canon(cx.root@) is Some && canon(join(join(cx.root@, cx.wd@), comps(path@))) == Some(canon(cx.root@)->Some_0 + ret->Ok_0@) && plain(ret->Ok_0@)
            && leads_inside(*cx, canon(cx.root@)->Some_0, path@) && ret->Ok_0@ == target(*cx, canon(cx.root@)->Some_0, path@)
            && inside(cx.root@, join(cx.root@, ret->Ok_0@)) && canon(join(cx.root@, ret->Ok_0@)) == Some(canon(cx.root@)->Some_0 + ret->Ok_0@),
        ret is Err && canon(cx.root@) is Some && canon(join(join(cx.root@, cx.wd@), comps(path@))) is Some
            ==> !canon(cx.root@)->Some_0.is_prefix_of(canon(join(join(cx.root@, cx.wd@), comps(path@)))->Some_0),
//@tail
    proof { if __vret is Ok { target_is(*cx, canon(cx.root@)->Some_0, path@, __vret->Ok_0@); } }
//@endfn
//@fn check_below_root
//@sig fn check_below_root(path: &PathBuf, root: &PathBuf) -> (ret: Result<(), IoError>)
    ensures ret is Ok <==> below(root@, path@)
//@loop 0
    invariant
        __k <= __cs@.len(), path@ == root@ + __cs@, depth <= __k, depth == level(__cs@, __k as int),
    decreases __cs@.len() - __k
//@loophead 0
    proof { assert(path@.skip(root@.len() as int) =~= __cs@); if level(__cs@, __k + 1) < 0 { level_neg(__cs@, __k + 1, __cs@.len() as int); } }
//@after 0
    assert(path@.skip(root@.len() as int) =~= __cs@);
//@endfn
//@fn mkdirs
//@sig fn mkdirs(p: &PathBuf, w: &mut World) -> (ret: Result<(), IoError>)
    requires ok(*old(w)), below(old(w).root@, p@)
    ensures ok(*final(w)), final(w).root == old(w).root, final(w).croot == old(w).croot,
        final(w).touched@ == old(w).touched@ || (final(w).touched@ == old(w).touched@.push((2, p@.drop_last())) && inside(old(w).root@, p@.drop_last())),
//@head
    proof { parent_inside(w.root@, p@); }
//@endfn
//@fn read_file
//@sig fn read_file(path: PathBuf, w: &mut World) -> (ret: Result<String, IoError>)
    requires ok(*old(w)), inside(old(w).root@, path@)
    ensures ok(*final(w)), touch(*old(w), World { last: old(w).last, ..*final(w) }, 3, path@), final(w).last@ == (final(w).fs@, final(w).pending@),
        ret is Ok && canon(path@) is Some ==> text_at(final(w).fs@, canon(path@)->Some_0) == Some(ret->Ok_0@)
//@endfn
//@closure save_intrinsic eval:0 as=save
//@params val cx
//@sig fn save(val: Value, cx: Context, filepath: &Argument, blktag: &Def, w: &mut World) -> (ret: Result<Value, Error>)
    requires ok(*old(w)), rooted(*old(w), cx)
    ensures
        ret is Ok ==> ret->Ok_0 == val && exists|p: Seq<char>| #[trigger] arg_gives(*filepath, val, cx, p)
            && final(w).touched@.last() == (1int, join(join(cx.root@, cx.wd@), comps(p))),
        forall|i: int| old(w).touched@.len() <= i < final(w).touched@.len() ==> inside(cx.root@, (#[trigger] final(w).touched@[i]).1),
//@endfn
/// what a path given to a command leads to, relative to the root
pub open spec fn target(cx: Context, croot: Comps, p: Seq<char>) -> Comps { canon(join(join(cx.root@, cx.wd@), comps(p)))->Some_0.skip(croot.len() as int) }
pub open spec fn leads_inside(cx: Context, croot: Comps, p: Seq<char>) -> bool {
    let c = canon(join(join(cx.root@, cx.wd@), comps(p)));
    c is Some && croot.is_prefix_of(c->Some_0) && plain(target(cx, croot, p))
}
// assume: what lies below the place root leads to is found below root by the same names
#[verifier::external_body]
pub proof fn canon_below(root: Comps, s: Comps, x: Comps)
    requires canon(root) is Some, plain(s), canon(x) == Some(canon(root)->Some_0 + s)
    ensures canon(root + s) == canon(x)
{ }
pub proof fn target_is(cx: Context, croot: Comps, p: Seq<char>, k: Comps)
    requires canon(cx.root@) == Some(croot), canon(join(join(cx.root@, cx.wd@), comps(p))) == Some(croot + k), plain(k)
    ensures target(cx, croot, p) == k, leads_inside(cx, croot, p), inside(cx.root@, join(cx.root@, k)), canon(join(cx.root@, k)) == Some(croot + k)
{
    assert((croot + k).skip(croot.len() as int) =~= k);
    inside_plain(cx.root@, k);
    canon_below(cx.root@, k, join(join(cx.root@, cx.wd@), comps(p)));
}
pub open spec fn opened(cx: Context, w: World, p: Seq<char>, ty: Type, v: Value) -> bool {
    leads_inside(cx, w.croot@, p) && fresh(w.last@.0, w.last@.1, w.croot@, target(cx, w.croot@, p), ty, v)
}
//@closure open_intrinsic eval_o:0 as=open_tab
//@params val cx
//@sig fn open_tab(val: Value, cx: Context, arg: &Argument, blktag: &Def, w: &mut World) -> (ret: Result<Value, Error>)
    requires ok(*old(w)), rooted(*old(w), cx), !old(w).held@
    ensures
        ok(*final(w)),
        ret is Ok ==> exists|p: Seq<char>| #[trigger] arg_gives(*arg, val, cx, p) && opened(cx, *final(w), p, Type::Tab, ret->Ok_0),
        forall|i: int| old(w).touched@.len() <= i < final(w).touched@.len() ==> inside(cx.root@, (#[trigger] final(w).touched@[i]).1),
//@endfn
//@closure open_intrinsic eval_o:1 as=open_str
//@params val cx
//@sig fn open_str(val: Value, cx: Context, arg: &Argument, blktag: &Def, w: &mut World) -> (ret: Result<Value, Error>)
    requires ok(*old(w)), rooted(*old(w), cx), !old(w).held@
    ensures
        ok(*final(w)),
        ret is Ok ==> exists|p: Seq<char>| #[trigger] arg_gives(*arg, val, cx, p) && opened(cx, *final(w), p, Type::Str, ret->Ok_0),
        forall|i: int| old(w).touched@.len() <= i < final(w).touched@.len() ==> inside(cx.root@, (#[trigger] final(w).touched@[i]).1),
//@endfn
//@closure ls_intrinsic eval_o:0 as=ls
//@params val cx
//@sig fn ls(val: Value, cx: Context, path: &Option<Argument>, blk_tag: &Def, w: &mut World) -> (ret: Result<Value, Error>)
    requires ok(*old(w)), rooted(*old(w), cx), !old(w).held@, inside(cx.root@, join(cx.root@, cx.wd@))
    ensures
        ok(*final(w)),
        ret is Ok && path is Some ==> exists|p: Seq<char>| #[trigger] arg_gives(path->Some_0, Value::Nil, cx, p) && leads_inside(cx, final(w).croot@, p)
            && listed(*final(w), ret->Ok_0, join(cx.root@, target(cx, final(w).croot@, p))),
        ret is Ok && path is None ==> listed(*final(w), ret->Ok_0, join(cx.root@, cx.wd@)),
        forall|i: int| old(w).touched@.len() <= i < final(w).touched@.len() ==> inside(cx.root@, (#[trigger] final(w).touched@[i]).1),
//@endfn
//@src ogma-shell/lib.rs
#[derive(Clone, Copy)]
pub struct TabId { pub id: usize }
#[verifier::external_body]
pub struct Workspace { p: u8 }
//@item RunState
#[verifier::external_body]
pub struct TabMap { p: u8 }
impl TabMap {
    pub uninterp spec fn view(&self) -> Map<TabId, PathBuf>;
    #[verifier::external_body] pub fn get(&self, id: &TabId) -> (r: Option<&PathBuf>)
        ensures match r { Some(p) => self@.contains_key(*id) && *p == self@[*id], None => !self@.contains_key(*id) }
    { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, id: TabId, p: PathBuf) ensures final(self)@ == old(self)@.insert(id, p) { unimplemented!() }
}
pub struct Batch { pub parallelise: bool, pub fail_fast: bool, pub items: Items }
#[verifier::external_body]
pub struct Items { p: u8 }
impl<'a> AsPath for &'a str { open spec fn cs(&self) -> Comps { comps((*self)@) } }
impl AsPath for String { open spec fn cs(&self) -> Comps { comps(self@) } }
#[verifier::external_body]
pub fn v_string(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn v_contains(a: &str, b: &str) -> (r: bool) ensures r == textin(a@, b@) { unimplemented!() }
pub uninterp spec fn textin(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn replaced(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_replace(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == replaced(a@, b@, c@) { unimplemented!() }
/// the batch as the file at this place says
pub uninterp spec fn batch_at(p: Comps, b: Batch) -> bool;
#[verifier::external_body]
pub fn v_parse_file(p: PathBuf, w: &mut World) -> (r: Result<Result<Batch, Error>, IoError>)
    requires ok(*old(w)), inside(old(w).root@, p@)
    ensures touch(*old(w), *final(w), 3, p@), r is Ok && r->Ok_0 is Ok && canon(p@) is Some ==> batch_at(canon(p@)->Some_0, r->Ok_0->Ok_0)
{ unimplemented!() }
// assume: the shell's root is absolute or `.` (the binary passes `.`)
pub open spec fn good_root(r: Comps) -> bool { anchored(r) || r == seq![Component::CurDir] }
/// working directories are below the root
pub open spec fn wd_ok(root: Comps, p: Comps) -> bool { p == root || (plain(p) && canon(root) is Some && canon(root + p) == Some(canon(root)->Some_0 + p)) }
pub open spec fn tabs_ok(s: RunState) -> bool { forall|t: TabId| #[trigger] s.tabs@.contains_key(t) ==> wd_ok(s.root@, s.tabs@[t]@) }
/// the working directory of a tab: the one set, at first the root
pub open spec fn tab_wd(s: RunState, t: TabId) -> Comps { if s.tabs@.contains_key(t) { join(s.root@, s.tabs@[t]@) } else { s.root@ } }
/// the text without a flag
pub open spec fn unflag(s: Seq<char>, f: Seq<char>) -> Seq<char> { if textin(s, f) { replaced(s, f, ""@) } else { s } }
pub open spec fn run_path(s: Seq<char>) -> Seq<char> { unflag(unflag(s, " --no-par"@), " --no-fast-fail"@) }
pub open spec fn run_file(s: RunState, t: TabId, f: Seq<char>) -> Option<Comps> { canon(join(tab_wd(s, t), comps(run_path(f)))) }
/// the batch of this file, with the flags applied
pub open spec fn run_gives(c: Comps, f: Seq<char>, r: Batch) -> bool {
    exists|b: Batch| #[trigger] batch_at(c, b) && r == (Batch {
        parallelise: b.parallelise && !textin(f, " --no-par"@), fail_fast: b.fail_fast && !textin(unflag(f, " --no-par"@), " --no-fast-fail"@), ..b })
}
/// an expression may be evaluated with such a working directory
pub proof fn wd_inside(root: Comps, p: Comps)
    requires good_root(root), wd_ok(root, p)
    ensures inside(root, join(root, p))
{
    if p == root { assert(join(root, p) =~= root); assert(root.skip(root.len() as int) =~= Comps::empty()); } else { inside_plain(root, p); }
}
impl RunState {
//@fn RunState::validate_path
//@sig fn validate_path<P: AsPath>(&self, tab_id: TabId, path: P) -> (ret: Result<PathBuf, IoError>)
    requires tabs_ok(*self)
    ensures
        ret is Ok ==> canon(self.root@) is Some && canon(join(tab_wd(*self, tab_id), path.cs())) == Some(canon(self.root@)->Some_0 + ret->Ok_0@) && plain(ret->Ok_0@)
            && wd_ok(self.root@, ret->Ok_0@) && inside(self.root@, join(self.root@, ret->Ok_0@)) && join(self.root@, ret->Ok_0@) == self.root@ + ret->Ok_0@
            && canon(self.root@ + ret->Ok_0@) == canon(join(tab_wd(*self, tab_id), path.cs())),
        ret is Err && canon(self.root@) is Some && canon(join(tab_wd(*self, tab_id), path.cs())) is Some
            ==> !canon(self.root@)->Some_0.is_prefix_of(canon(join(tab_wd(*self, tab_id), path.cs()))->Some_0),
//@head
    let ghost p0 = path.cs();
//@tail
    proof {
        if __vret is Ok {
            let r = __vret->Ok_0@;
            let c = canon(join(tab_wd(*self, tab_id), p0))->Some_0;
            let n = c.len() - r.len();
            assert(n > 0 && forall|i: int| 0 <= i < r.len() ==> r[i] == #[trigger] c.skip(1)[n + i - 1]);
            assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == c.skip(1)[n + i - 1]);
            inside_plain(self.root@, r);
            canon_below(self.root@, r, join(tab_wd(*self, tab_id), p0));
        }
    }
//@endfn
//@fn RunState::change_working_dir
//@sig fn change_working_dir<P: AsPath>(&mut self, tab_id: TabId, path: P) -> (ret: Result<(), IoError>)
    requires tabs_ok(*old(self)), good_root(old(self).root@)
    ensures
        tabs_ok(*final(self)), final(self).root == old(self).root,
        ret is Err ==> final(self).tabs@ == old(self).tabs@,
        ret is Ok ==> canon(tab_wd(*final(self), tab_id)) == canon(join(tab_wd(*old(self), tab_id), path.cs())) && canon(tab_wd(*final(self), tab_id)) is Some,
        forall|t: TabId| t != tab_id ==> #[trigger] tab_wd(*final(self), t) == tab_wd(*old(self), t),
        inside(final(self).root@, tab_wd(*final(self), tab_id)),
//@head
    proof {
        if self.tabs@.contains_key(tab_id) { wd_inside(self.root@, self.tabs@[tab_id]@); }
        else { assert(self.root@.skip(self.root@.len() as int) =~= Comps::empty()); }
    }
//@tail
    proof {
        if self.tabs@.contains_key(tab_id) { wd_inside(self.root@, self.tabs@[tab_id]@); }
        else { assert(self.root@.skip(self.root@.len() as int) =~= Comps::empty()); }
    }
//@endfn
//@fn RunState::parse_batch
//@sig fn parse_batch(&self, tab_id: TabId, file_flags: &str, w: &mut World) -> (ret: Result<Result<Batch, Error>, IoError>)
    requires tabs_ok(*self), ok(*old(w)), old(w).root@ == self.root@
    ensures
        forall|i: int| old(w).touched@.len() <= i < final(w).touched@.len() ==> inside(self.root@, (#[trigger] final(w).touched@[i]).1),
        ret is Ok && ret->Ok_0 is Ok ==> run_file(*self, tab_id, file_flags@) is Some
            && run_gives(run_file(*self, tab_id, file_flags@)->Some_0, file_flags@, ret->Ok_0->Ok_0),
//@endfn
}
