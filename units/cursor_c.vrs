//@rule parse_then
$b_w.parse($b_l).map(|$p_c| $a)
//@=>
match $b_w.parse($b_l) { Ok($p_c) => Ok($a), Err(__e) => Err(__e) }
//@endrule
//@rule or_failed
$o_e.unwrap_or_else(|$i_x| $b)
//@=>
match $o_e { Ok(__v) => __v, Err($i_x) => $b }
//@endrule
//@rule or_no
$e.unwrap_or_default()
//@=>
match $e { Some(__v) => __v, None => false }
//@endrule
//@rule items_has
items.contains($e)
//@=>
items.v_contains($e)
//@endrule
//@rule path_given
working_dir.join(path_component($e))
//@=>
v_path_join(working_dir, path_component($e))
//@endrule
//@rule dir_or_parent
path.parent()
//@=>
v_parent(&path)
//@endrule
//@rule itself
Some(&*path)
//@=>
Some(v_same(&path))
//@endrule
//@rule is_dir_kind
x.file_type().map(|x| x.is_dir())
//@=>
v_dir_entry_is_dir(x)
//@endrule
//@rule file_name
x.file_name().to_string_lossy().into()
//@=>
v_entry_name(x)
//@endrule
//@rule opened
path.and_then(|x| x.read_dir().ok())
//@=>
v_read_dir(path)
//@endrule
//@rule each_entry
entries.extend(dir.filter_map(|$p_y| $c).map(|$p_x| $body))
//@=>
{ let mut __k: usize = 0; while __k < dir.len() { let $p_x = &dir[__k]; entries.push($body); __k += 1; } }
//@endrule
//@include text.vrs
// assume: the commands, types and literals offered, and the entries of a directory, are listed whole (Workspace::impls/types, spec_literal_completions, path_completions)
// assume: of ogma's syntax tree only the shape; a tag's range is start..end
//@rule back_indices
for ($i_a, $i_c) in $b_s.char_indices().rev() { $s_body }
//@=>
{ let __cs = v_char_indices($b_s); let mut __k: usize = __cs.len(); while __k > 0 { let ($i_a, $i_c) = __cs[__k - 1]; __k -= 1; $s_body } }
//@endrule
//@rule rest_of
&line[$e..]
//@=>
v_from(line, $e)
//@endrule
//@rule line_len
line.len()
//@=>
v_strlen(line)
//@endrule
//@rule three
Items::$i_a | Items::$i_b | Items::$i_c
//@=>
v_join(v_join(Items::$i_a, Items::$i_b), Items::$i_c)
//@endrule
#[verifier::external_body]
pub fn v_from(s: &str, b: usize) -> (r: &str) requires is_bnd(s@, b as int) ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] bidx(s@, k) == b ==> r@ == s@.subrange(k, s@.len() as int) { &s[b..] }
/// the quote still open after the first k characters: where it is and which
pub open spec fn open_quote(s: Seq<char>, k: int) -> Option<(int, char)> decreases k {
    if k <= 0 { None } else {
        match open_quote(s, k - 1) {
            Some(q) => if q.1 == s[k - 1] { None } else { Some(q) },
            None => if s[k - 1] == '"' || s[k - 1] == '\'' { Some((k - 1, s[k - 1])) } else { None },
        }
    }
}
/// where the last word of the first k characters begins
pub open spec fn word_from(s: Seq<char>, k: int) -> int decreases k { if k <= 0 || s[k - 1] == ' ' { k } else { word_from(s, k - 1) } }
pub open spec fn typed(s: Seq<char>) -> Seq<char> { s.subrange(match open_quote(s, s.len() as int) { Some(q) => q.0, None => word_from(s, s.len() as int) }, s.len() as int) }
proof fn lemma_open(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures open_quote(s, k) is Some ==> 0 <= open_quote(s, k)->Some_0.0 < k decreases k { if k > 0 { lemma_open(s, k - 1); } }
proof fn lemma_word(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures 0 <= word_from(s, k) <= k decreases k { if !(k <= 0 || s[k - 1] == ' ') { lemma_word(s, k - 1); } }
//@known spec_literal_completions
//@src ogma-ls/completion.rs
//@fn path_component
//@sig fn path_component(line: &str) -> (ret: &str)
    ensures ret@ == typed(line@)
//@head
    let ghost n = line@.len() as int;
    proof { lemma_open(line@, n); lemma_word(line@, n); assert(bidx(line@, 0) == 0); assert(bidx(line@, n) == blen(line@)); reveal_strlit("\"'");
        assert("\"'"@.len() == 2); assert("\"'"@[0] == '"'); assert("\"'"@[1] == '\'');
        assert forall|c: char| "\"'"@.contains(c) <==> (c == '"' || c == '\'') by { if c == '"' { assert("\"'"@[0] == c); } if c == '\'' { assert("\"'"@[1] == c); } } }
//@loop 0
    invariant
        __k <= __cs@.len(), __cs@.len() == line@.len(), forall|k: int| 0 <= k < __cs@.len() ==> (#[trigger] __cs@[k]).0 == bidx(line@, k) && __cs@[k].1 == line@[k],
        forall|c: char| #[trigger] esc@.contains(c) <==> (c == '"' || c == '\''),
        match open_quote(line@, __k as int) { Some(q) => mat_ch == Some(q.1) && 0 <= q.0 < __k && i == bidx(line@, q.0), None => mat_ch is None },
    decreases __cs@.len() - __k
//@loop 1
    invariant_except_break i == bidx(line@, __k as int), word_from(line@, __k as int) == word_from(line@, line@.len() as int)
    invariant __k <= __cs@.len(), __cs@.len() == line@.len(), forall|k: int| 0 <= k < __cs@.len() ==> (#[trigger] __cs@[k]).0 == bidx(line@, k) && __cs@[k].1 == line@[k],
    ensures i == bidx(line@, word_from(line@, line@.len() as int))
    decreases __k
//@tail
    proof { 
        let k = match open_quote(line@, n) { Some(q) => q.0, None => word_from(line@, n) };
        assert(bidx(line@, k) == i);
    }
//@endfn
// ---- what is offered ----
//@item Kind
//@item Def
#[verifier::external_body] pub struct Path { p: () }
#[verifier::external_body] pub struct Wsp { p: () }
#[verifier::external_body] pub struct Error { p: () }
pub enum Expecting { NONE, IMPL, TYPE, TERM, SPECLITERAL, PATH, Several(u32) }
pub mod ogma { pub mod lang { pub mod parse { pub use super::super::super::Expecting; } } pub use super::Error; }
#[derive(Clone, Copy)]
pub struct Items { pub impls: bool, pub types: bool, pub paths: bool, pub lits: bool }
impl Items {
    pub const IMPLS: Items = Items { impls: true, types: false, paths: false, lits: false };
    pub const TYPES: Items = Items { impls: false, types: true, paths: false, lits: false };
    pub const PATHS: Items = Items { impls: false, types: false, paths: true, lits: false };
    pub const SPEC_LIT: Items = Items { impls: false, types: false, paths: false, lits: true };
    pub fn v_contains(&self, o: Items) -> (r: bool) ensures r == ((o.impls ==> self.impls) && (o.types ==> self.types) && (o.paths ==> self.paths) && (o.lits ==> self.lits)) { (!o.impls || self.impls) && (!o.types || self.types) && (!o.paths || self.paths) && (!o.lits || self.lits) }
}
pub fn v_join(a: Items, b: Items) -> (r: Items) ensures r == (Items { impls: a.impls || b.impls, types: a.types || b.types, paths: a.paths || b.paths, lits: a.lits || b.lits }) { Items { impls: a.impls || b.impls, types: a.types || b.types, paths: a.paths || b.paths, lits: a.lits || b.lits } }
//@rule extend
r.extend($e)
//@=>
v_extend(&mut r, $e)
//@endrule
//@rule into_iter
$b_v.$i_f().into_iter()
//@=>
$b_v.$i_f()
//@endrule
//@rule complete_ty type
&dyn Complete
//@=>
&AnyComplete
//@endrule
//@rule as_complete
c.as_ref()
//@=>
&c
//@endrule
//@item Incomplete
#[verifier::external_body] pub struct AnyComplete { p: () }
pub uninterp spec fn all_commands(w: Wsp) -> Seq<Def>;
pub uninterp spec fn all_types(w: Wsp) -> Seq<Def>;
pub uninterp spec fn all_literals() -> Seq<Def>;
pub uninterp spec fn parsed(w: Wsp, s: Seq<char>) -> Option<AnyComplete>;
pub uninterp spec fn expected(w: Wsp, s: Seq<char>) -> Expecting;
impl Wsp {
    #[verifier::external_body] pub fn impls(&self) -> (r: Vec<Def>) ensures r@ == all_commands(*self) { unimplemented!() }
    #[verifier::external_body] pub fn types(&self) -> (r: Vec<Def>) ensures r@ == all_types(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse(&self, s: &str) -> (r: std::result::Result<AnyComplete, Incomplete>)
        ensures r is Ok == parsed(*self, s@) is Some, r is Ok ==> r->Ok_0 == parsed(*self, s@)->Some_0, r is Err ==> r->Err_0.exp == expected(*self, s@) { unimplemented!() }
}
#[verifier::external_body] pub fn spec_literal_completions() -> (r: Vec<Def>) ensures r@ == all_literals() { unimplemented!() }
pub struct Entry { pub name: String, pub dir: bool }
pub struct PathBuf { pub p: u64 }
/// a directory's path and a text joined; whether it is a directory that exists; its parent; what is in it (None: cannot be read)
pub uninterp spec fn with(p: Path, s: Seq<char>) -> Path;
pub uninterp spec fn is_directory(p: Path) -> bool;
pub uninterp spec fn exists_now(p: Path) -> bool;
pub uninterp spec fn parent_of(p: Path) -> Option<Path>;
pub uninterp spec fn inside(p: Path) -> Option<Seq<Entry>>;
impl Path {
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == is_directory(*self) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == exists_now(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn v_path_join(p: &Path, s: &str) -> (r: Path) ensures r == with(*p, s@) { unimplemented!() }
#[verifier::external_body] pub fn v_parent(p: &Path) -> (r: Option<&Path>) ensures r is Some == parent_of(*p) is Some, r is Some ==> *r->Some_0 == parent_of(*p)->Some_0 { unimplemented!() }
pub fn v_same(p: &Path) -> (r: &Path) ensures r == p { p }
#[verifier::external_body] pub fn v_read_dir(p: Option<&Path>) -> (r: Option<Vec<Entry>>) ensures r is Some == (p is Some && inside(*p->Some_0) is Some), r is Some ==> r->Some_0@ == inside(*p->Some_0)->Some_0 { unimplemented!() }
pub fn v_dir_entry_is_dir(e: &Entry) -> (r: Option<bool>) ensures r == Some(e.dir) { Some(e.dir) }
#[verifier::external_body] pub fn v_entry_name(e: &Entry) -> (r: String) ensures r@ == e.name@ { e.name.clone() }
/// the directory a text means: itself if it names one, else the one it would be in
pub open spec fn meant(p: Path, s: Seq<char>) -> Option<Path> { if is_directory(with(p, s)) && exists_now(with(p, s)) { Some(with(p, s)) } else { parent_of(with(p, s)) } }
pub open spec fn listing(p: Option<Path>) -> Seq<Entry> { if p is Some && inside(p->Some_0) is Some { inside(p->Some_0)->Some_0 } else { Seq::empty() } }
pub open spec fn as_item(e: Entry, d: Def) -> bool { d.name@ == e.name@ && d.kind == (if e.dir { Kind::Dir } else { Kind::File }) && d.doc is None }
pub open spec fn items_of(e: Seq<Entry>, d: Seq<Def>) -> bool { d.len() == e.len() && forall|k: int| 0 <= k < e.len() ==> as_item(#[trigger] e[k], d[k]) }
//@fn path_completions
//@sig fn path_completions(working_dir: &Path, line: &str) -> (ret: Vec<Def>)
    ensures items_of(listing(meant(*working_dir, typed(line@))), ret@)
//@loop 0
    invariant __k <= dir@.len(), items_of(dir@.take(__k as int), entries@)
    decreases dir@.len() - __k
//@looptail 0
    proof { assert(dir@.take(__k as int) =~= dir@.take(__k - 1).push(dir@[__k - 1])); }
//@after 0
    proof { assert(dir@.take(dir@.len() as int) =~= dir@); }
//@endfn
/// the paths, where wanted, then the commands, the types and the literals
pub open spec fn offer(w: Wsp, s: Seq<char>, p: Option<&Path>, i: Items, r: Seq<Def>) -> bool {
    exists|d: Seq<Def>| #[trigger] paths_shown(s, p, i, d) && r == d + rest_of(w, i)
}
pub open spec fn paths_shown(s: Seq<char>, p: Option<&Path>, i: Items, d: Seq<Def>) -> bool { if i.paths && p is Some { items_of(listing(meant(*p->Some_0, typed(s))), d) } else { d.len() == 0 } }
pub open spec fn rest_of(w: Wsp, i: Items) -> Seq<Def> { (if i.impls { all_commands(w) } else { Seq::empty() }) + (if i.types { all_types(w) } else { Seq::empty() }) + (if i.lits { all_literals() } else { Seq::empty() }) }
pub open spec fn kinds(impls: bool, types: bool, paths: bool, lits: bool) -> Items { Items { impls, types, paths, lits } }
//@fn cmpls
//@sig fn cmpls(wsp: &Wsp, line: &str, working_dir: Option<&Path>, items: Items) -> (ret: Vec<Def>)
    ensures offer(*wsp, line@, working_dir, items, ret@)
//@tail
    proof {
        let k = __vret@.len() - rest_of(*wsp, items).len();
        let d = __vret@.take(k);
        assert(__vret@ =~= d + rest_of(*wsp, items));
        assert(paths_shown(line@, working_dir, items, d));
    }
//@endfn
/// what is offered where this is expected
pub open spec fn when_expecting(e: Expecting) -> Option<Items> {
    match e {
        Expecting::IMPL => Some(kinds(true, false, false, false)),
        Expecting::TYPE => Some(kinds(false, true, false, false)),
        Expecting::TERM => Some(kinds(true, false, true, true)),
        Expecting::SPECLITERAL => Some(kinds(false, false, false, true)),
        _ => None,
    }
}
pub open spec fn offered(w: Wsp, s: Seq<char>, p: Option<&Path>, i: Option<Items>, r: Option<Vec<Def>>) -> bool { (r is Some == i is Some) && (r is Some ==> offer(w, s, p, i->Some_0, r->Some_0@)) }
//@fn incomplete_completions
//@sig fn incomplete_completions(wsp: &Wsp, line: &str, working_dir: Option<&Path>, incomplete: Incomplete) -> (ret: Option<Vec<Def>>)
    ensures offered(*wsp, line@, working_dir, when_expecting(incomplete.exp), ret)
//@endfn
//@item NodeType derive=Copy,Clone,PartialEq,Eq
pub open spec fn when_at(t: NodeType) -> Option<Items> {
    match t {
        NodeType::Command => Some(kinds(true, false, false, false)),
        NodeType::Type | NodeType::TyParameter => Some(kinds(false, true, false, false)),
        NodeType::Ident => Some(kinds(true, false, true, true)),
        NodeType::Pound => Some(kinds(false, false, false, true)),
        _ => None,
    }
}

pub struct Tag { pub start: usize, pub end: usize }
//@item Node
pub uninterp spec fn node_at(c: AnyComplete, pos: int) -> Option<Node>;
impl AnyComplete { #[verifier::external_body] pub fn node_at_pos(&self, pos: usize) -> (r: Option<Node>) ensures r == node_at(*self, pos as int) { unimplemented!() } }
/// the place before the end of the text
pub open spec fn last_byte(s: Seq<char>) -> int { if blen(s) > 0 { blen(s) - 1 } else { 0 } }
pub open spec fn when_complete(c: AnyComplete, s: Seq<char>) -> Option<Items> { match node_at(c, last_byte(s)) { Some(n) => when_at(n.ty), None => None } }
//@fn complete_completions
//@sig fn complete_completions(wsp: &Wsp, line: &str, working_dir: Option<&Path>, complete: &AnyComplete) -> (ret: Option<Vec<Def>>)
    ensures offered(*wsp, line@, working_dir, when_complete(*complete, line@), ret)
//@endfn
//@fn get as=get_items
//@sig pub fn get_items(wsp: &Wsp, truncated_line: &str, working_dir: Option<&Path>) -> (ret: Option<Vec<Def>>)
    ensures offered(*wsp, truncated_line@, working_dir, match parsed(*wsp, truncated_line@) { Some(c) => when_complete(c, truncated_line@), None => when_expecting(expected(*wsp, truncated_line@)) }, ret)
//@endfn
