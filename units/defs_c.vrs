//@rule dbg stmt
debug_assert!($e, $l);
//@=>
v_must($e);
//@endrule
//@rule dbg_print stmt
dbg!($s_a);
//@=>
;
//@endrule
//@rule err_lit
Error { $s_a }
//@=>
v_err()
//@endrule
//@rule err_predef
Error::predefined_impl($s_a)
//@=>
v_err()
//@endrule
//@rule err_notfound
Error::impl_not_found($s_a)
//@=>
v_err()
//@endrule
//@rule err_op
Error::op_not_found($s_a)
//@=>
v_err()
//@endrule
//@rule err_ty
Error::type_not_found($s_a)
//@=>
v_err()
//@endrule
//@rule err_help
err::help_as_error($s_a)
//@=>
v_err()
//@endrule
//@rule fmt_variant
v_variant_s($t, $v).into()
//@=>
v_variant($t, $v)
//@endrule
//@rule fields_clone
fields.clone()
//@=>
v_fields(fields)
//@endrule
//@rule fmt_variant2
format!("{}::{}", tydef.name(), variant.name)
//@=>
v_variant_s(tydef.name(), &variant.name)
//@endrule
//@rule fmt_any
format!($s_a)
//@=>
v_text()
//@endrule
//@rule help_let stmt
let help = HelpMessage { $s_a };
//@=>
//@endrule
//@rule keys_or
$r.or(self.agnostic.as_ref())
//@=>
match $r { Some(__x) => Some(__x), None => self.agnostic.as_ref() }
//@endrule
//@rule keys_retain stmt
self.tys.retain(|$p_t, ($i_i, $i_o, $i_h)| $c);
//@=>
self.tys.v_retain(__raw!(|__t: &Type, __e: &Impl| -> (__b: bool) requires predicate.requires((Some(__t), &__e.0, &__e.1, &__e.2)) ensures predicate.ensures((Some(__t), &__e.0, &__e.1, &__e.2), __b) { let $p_t = __t; let ($i_i, $i_o, $i_h) = (&__e.0, &__e.1, &__e.2); $c }));
//@endrule
//@rule opt_filter3
$r.filter(|($i_i, $i_o, $i_h)| $c)
//@=>
match $r { Some(__f) => { let __c = { let ($i_i, $i_o, $i_h) = (&__f.0, &__f.1, &__f.2); $c }; if __c { Some(__f) } else { None } } None => None }
//@endrule
//@rule opt_filter
$r.filter(|$p_x| $c)
//@=>
match $r { Some(__f) => { let __c = { let $p_x = __f; $c }; if __c { Some(__f) } else { None } } None => None }
//@endrule
//@rule opt_and_then
$b_a.get($k).and_then(|$p_x| $c)
//@=>
match $b_a.get($k) { Some($p_x) => $c, None => None }
//@endrule
//@rule opt_first
$r.map(|(im, _, _)| im)
//@=>
match $r { Some(__e) => Some(&__e.0), None => None }
//@endrule
//@rule opt_map
$r.get_impl(ty).map(|x| $c)
//@=>
match $r.get_impl(ty) { Some(x) => Some($c), None => None }
//@endrule
//@rule ok_or_else
$r.ok_or_else(|| $e)
//@=>
match $r { Some(__v) => Ok(__v), None => Err($e) }
//@endrule
//@rule loc_ogma
$a.loc == Location::Ogma
//@=>
v_loc_ogma(&$a.loc)
//@endrule
//@rule entry_default
self.0.entry($k).or_default()
//@=>
self.0.v_entry($k)
//@endrule
//@rule each_value stmt
self.0.values_mut().for_each(|$p_m| $s_b);
//@=>
{ let __ks = self.0.v_keys(); let mut __k: usize = 0; while __k < __ks.len() { if let Some($p_m) = self.0.get_mut(&__ks[__k]) { $s_b; } __k += 1; } }
//@endrule
//@rule impls_keep
$b_m.retain(|_, im, _, _| $c)
//@=>
$b_m.retain(__raw!(|__t: Option<&Type>, im: &Implementation, __o: &OperationCategory, __h: &HelpMessage| -> (__b: bool) ensures __b == kept(loc_of(*im), only_files) { $c }))
//@endrule
//@rule keys_keep stmt
self.0.retain(|_, m| $c)
//@=>
v_keep(&mut self.0, __raw!(|__k: &Str, m: &Keys| -> (__b: bool) ensures __b == !m.vacant() { $c }));
//@endrule
//@rule keys_keep_e
self.0.retain(|_, m| $c)
//@=>
v_keep(&mut self.0, __raw!(|__k: &Str, m: &Keys| -> (__b: bool) ensures __b == !m.vacant() { $c }))
//@endrule
//@rule types_keep
self.map.retain(|_, x| $c)
//@=>
self.map.v_retain(__raw!(|__k: &Str, x: &Type| -> (__b: bool) ensures __b == ty_kept(*x, only_files) { $c }))
//@endrule
//@rule arc_f
Arc::new(f)
//@=>
f
//@endrule
//@rule arc_ty
Arc::new(ty)
//@=>
v_arc(ty)
//@endrule
//@rule op_into
op.into()
//@=>
op
//@endrule
//@rule ty_into
in_ty.into()
//@=>
in_ty
//@endrule
//@rule init_fn
move |blk| typedef_init(blk, tydef.clone(), variant_idx, &fields)
//@=>
v_init_fn(tydef.clone(), variant_idx, &fields)
//@endrule
//@rule init_help
typedef_init_help($a)
//@=>
v_help()
//@endrule
//@rule usr_help stmt
let mut helpmsg = lang::impls::usr_impl_help(&def);
//@=>
let mut helpmsg = v_help();
//@endrule
//@rule usr_help2 stmt
helpmsg.desc = $e;
//@=>
;
//@endrule
//@rule for_enum
for ($p_i, $p_x) in $b_v.iter().enumerate() { $s_body }
//@=>
{ let __vs = &$b_v; let mut __k: usize = 0; while __k < __vs.len() { let $p_i = __k; let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule names_of
$b_v.iter().map(|$p_x| $e).collect()
//@=>
{ let __vs = $b_v; let mut __r: Vec<String> = Vec::new(); let mut __k: usize = 0; while __k < __vs.len() { let $p_x = &__vs[__k]; __r.push($e); __k += 1; } __r }
//@endrule
//@rule name_vec
vec![$e]
//@=>
v_one($e)
//@endrule
//@rule name_str
tydef.name().to_string()
//@=>
v_name(tydef.name())
//@endrule
//@rule earlier
ops[..i].contains(op)
//@=>
v_among(&ops, i, op)
//@endrule
//@rule some_agn
impls.0.get($k).and_then(|x| x.agnostic.as_ref())
//@=>
match impls.0.get($k) { Some(x) => x.agnostic.as_ref(), None => None }
//@endrule
//@rule fields_or
variant.fields.clone().unwrap_or_default()
//@=>
v_fields_or(&variant.fields)
//@endrule
//@rule str_new_name
Str::new(tydef.name())
//@=>
Str::new(tydef.name())
//@endrule
//@rule parse_ty
lang::syntax::parse::definition_type(def, loc).map_err(|e| e.0)
//@=>
definition_type(def, loc)
//@endrule
//@rule parse_impl
lang::syntax::parse::definition_impl(s, loc, defs).map_err(|e| e.0)
//@=>
definition_impl(s, loc, defs)
//@endrule
//@rule for_own
for $p_x in $i_v { $s_body }
//@=>
{ let mut __vs = $i_v; let __n = __vs.len(); let mut __k: usize = 0; while __k < __n { let $p_x = __vs.remove(0); __k += 1; $s_body } }
//@endrule
//@rule for_items
for item in items.types.into_iter().chain(items.impls).map(|(_, $i_x)| $i_x) { $s_body }
//@=>
{ let mut __vs = items.types; let mut __ws = items.impls; v_chain(&mut __vs, &mut __ws); let __n = __vs.len(); let mut __k: usize = 0; while __k < __n { let item = __vs.remove(0).1; __k += 1; $s_body } }
//@endrule
//@rule while_pop
while let Some($p_x) = $b_v.pop() { $s_body }
//@=>
while $b_v.len() > 0 { let $p_x = $b_v.pop().unwrap(); $s_body }
//@endrule
//@rule for_ref
for $p_x in &$b_v { $s_body }
//@=>
{ let __bs = &$b_v; let mut __k: usize = 0; while __k < __bs.len() { let $p_x = &__bs[__k]; __k += 1; $s_body } }
//@endrule
//@rule extend_terms
$b_v.extend($k.terms().iter().filter_map(|$p_t| $c))
//@=>
{ let __ts = $k.terms(); let mut __j: usize = 0; while __j < __ts.len() { let $p_t = &__ts[__j]; match $c { Some(__x) => { $b_v.push(__x); } None => {} } __j += 1; } }
//@endrule
//@rule vec_cap
Vec::with_capacity($n)
//@=>
Vec::new()
//@endrule
//@rule split_first
s.split('{').next().unwrap_or(s)
//@=>
v_before(s)
//@endrule
//@rule has_lit
head.contains($l)
//@=>
v_contains(head, $l)
//@endrule
//@rule flag_find
[" --list", " --clear"].iter().find(|x| $c)
//@=>
v_flag(head)
//@endrule
//@rule starts
$v.starts_with($l)
//@=>
v_starts($v, $l)
//@endrule
//@rule post stmt
let post = $e;
//@=>
let post = v_rest(s);
//@endrule
//@rule ty_done
$r.map(|_| (Value::Nil, None))
//@=>
match $r { Ok(_) => Ok((Value::Nil, None)), Err(__e) => Err(__e) }
//@endrule
//@rule arc_from
Arc::from(file)
//@=>
v_path(file)
//@endrule
//@rule arc_clone
Arc::clone(&file)
//@=>
file.clone()
//@endrule
//@rule file_parse
lang::parse::file(s, loc)
//@=>
parse_file(s, loc)
//@endrule
//@rule t_impls type
lang::impls::Implementations
//@=>
Implementations
//@endrule
//@rule t_types type
types::Types
//@=>
Types
//@endrule
//@rule t_typedef type
types::TypeDef
//@=>
TypeDef
//@endrule
//@rule t_field type
types::Field
//@=>
Field
//@endrule
//@rule t_keys type
HashMap<Str, Keys>
//@=>
HMap<Str, Keys>
//@endrule
//@rule t_tys type
HashMap<Type, Impl>
//@=>
HMap<Type, Impl>
//@endrule
//@rule t_map type
HashMap<Str, Type>
//@=>
HMap<Str, Type>
//@endrule
use std::sync::Arc;
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub fn v_err() -> (r: Error) { unimplemented!() }
#[verifier::external_body]
pub fn v_text() -> (r: String) { unimplemented!() }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub struct HelpMessage { p: u8 }
#[verifier::external_body]
pub fn v_help() -> (r: HelpMessage) { unimplemented!() }
impl HelpMessage { #[verifier::external_body] pub fn clone(&self) -> (r: HelpMessage) { unimplemented!() } }
#[verifier::external_body]
pub struct PathS { p: u8 }
#[verifier::external_body]
pub struct PathArc { p: u8 }
impl PathArc {
    #[verifier::external_body] pub fn clone(&self) -> (r: PathArc) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn v_path(p: &PathS) -> (r: PathArc) ensures r == arc_path(*p) { unimplemented!() }
pub uninterp spec fn arc_path(p: PathS) -> PathArc;
pub enum Location { Ogma, Shell, File(PathArc, u16) }
impl Location { #[verifier::external_body] pub fn clone(&self) -> (r: Location) ensures r == *self { unimplemented!() } }
pub fn v_loc_ogma(l: &Location) -> (r: bool) ensures r == (*l == Location::Ogma) { match l { Location::Ogma => true, _ => false } }
/// what has a text
pub trait Text { spec fn txt(&self) -> Seq<char>; }
impl Text for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl Text for Tag { open spec fn txt(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct Str { p: u8 }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<T: Text + ?Sized>(t: &T) -> (r: Str) ensures r@ == t.txt() { unimplemented!() }
    #[verifier::external_body] pub fn from(t: String) -> (r: Str) ensures r@ == t@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Tag { p: u8 }
impl Tag {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Tag) ensures r == *self { unimplemented!() }
}
pub enum Type { Nil, Bool, Num, Str, Tab, TabRow, Def(Arc<TypeDef>) }
impl Type { #[verifier::external_body] pub fn clone(&self) -> (r: Type) ensures r == *self { unimplemented!() } }
// --- hash maps over names and types ---
// assume: HashMap is a map over the equality of its keys; the equality of types is their kind and, for user types, their name (types.rs says so of TypeDef)
pub enum K { Txt(Seq<char>), Ty(TK) }
pub enum TK { Nil, Bool, Num, Str, Tab, TabRow, Def(Seq<char>) }
pub open spec fn tk(t: Type) -> TK {
    match t { Type::Nil => TK::Nil, Type::Bool => TK::Bool, Type::Num => TK::Num, Type::Str => TK::Str, Type::Tab => TK::Tab, Type::TabRow => TK::TabRow, Type::Def(d) => TK::Def(d.name@) }
}
pub trait Keyed { spec fn k(&self) -> K; }
impl Keyed for str { open spec fn k(&self) -> K { K::Txt(self@) } }
impl Keyed for Str { open spec fn k(&self) -> K { K::Txt(self@) } }
impl Keyed for Type { open spec fn k(&self) -> K { K::Ty(tk(*self)) } }
pub trait Fresh { spec fn fresh(&self) -> bool; }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(A)]
pub struct HMap<A, V> { p: core::marker::PhantomData<(A, V)> }
impl<A: Keyed, V> HMap<A, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn get<Q: Keyed + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k.k()), r is Some ==> *r->Some_0 == self@[k.k()]
    { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: Keyed + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.k()) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K| !self@.contains_key(k)) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<Q: Keyed + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.contains_key(k.k()),
            r is Some ==> *r->Some_0 == old(self)@[k.k()] && final(self)@ == old(self)@.insert(k.k(), *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: A, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.k(), v), r is Some <==> old(self)@.contains_key(k.k())
    { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: Keyed + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.k())
    { unimplemented!() }
    #[verifier::external_body] pub fn v_entry(&mut self, k: A) -> (r: &mut V) where V: Fresh
        ensures final(self)@ == old(self)@.insert(k.k(), *final(r)), old(self)@.contains_key(k.k()) ==> *r == old(self)@[k.k()], !old(self)@.contains_key(k.k()) ==> r.fresh()
    { unimplemented!() }
    // every key once
    #[verifier::external_body] pub fn v_keys(&self) -> (r: Vec<A>)
        ensures forall|k: K| self@.contains_key(k) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).k() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).k() != (#[trigger] r@[j]).k()
    { unimplemented!() }
    // retain: an entry stays exactly when the predicate, asked on it, says so
    #[verifier::external_body] pub fn v_retain<F: Fn(&A, &V) -> bool>(&mut self, f: F)
        requires forall|a: &A, v: &V| #[trigger] f.requires((a, v))
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k],
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> exists|a: &A| #[trigger] a.k() == k && f.ensures((a, &old(self)@[k]), final(self)@.contains_key(k))
    { unimplemented!() }
}
// the condition of a debug assertion
pub fn v_must(b: bool) requires b {}
// --- the language's definitions ---
#[verifier::external_body]
pub struct IntrinsicFn { p: u8 }
/// a type's initialiser: the type's name, the variant and its fields
pub uninterp spec fn init_of(f: IntrinsicFn) -> (TypeDef, int, Seq<Field>);
// stands for the closure `move |blk| typedef_init(blk, tydef.clone(), variant_idx, &fields)`
#[verifier::external_body]
pub fn v_init_fn(t: Arc<TypeDef>, variant_idx: usize, fields: &Vec<Field>) -> (r: IntrinsicFn) ensures init_of(r) == (*t, variant_idx as int, fields@) { unimplemented!() }
pub mod ast {
use super::*;
pub struct DefinitionImpl { pub loc: Location, pub name: Tag, pub in_ty: Option<Tag>, pub expr: Expression }
pub struct Expression { pub tag: Tag, pub blocks: Vec<Block>, pub out_ty: Option<Tag> }
impl Expression { #[verifier::external_body] pub fn clone(&self) -> (r: Expression) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Block { p: u8 }
impl Block {
    pub uninterp spec fn s_op(&self) -> Seq<char>;
    pub uninterp spec fn s_terms(&self) -> Seq<Term>;
    #[verifier::external_body] pub fn op(&self) -> (r: Tag) ensures r@ == self.s_op() { unimplemented!() }
    #[verifier::external_body] pub fn terms(&self) -> (r: Vec<Term>) ensures r@ == self.s_terms() { unimplemented!() }
}
#[verifier::external_body]
pub struct Number { p: u8 }
//@src ogma/src/lang/syntax/ast.rs
//@item Term
//@item Argument
//@item DefinitionType
//@item TypeVariant
//@item Variant
//@item Field
}
pub mod types { pub use super::{Field, Variant, TypeVariant, TypeDef}; }
pub mod err { pub use super::v_err; }
pub mod lang { pub mod impls { pub(crate) use super::super::{assert_init_ops_undefined, add_typedef_init_impls, OperationCategory}; } pub mod parse { pub use super::super::Item; } }
//@src ogma/src/lang/types.rs
//@item TypeDef
//@item TypeVariant
//@item Variant
//@item Field
//@item Types
pub type Fields = Vec<Field>;
//@src ogma/src/lang/impls/mod.rs
//@item Implementation
//@item OperationCategory derive=Clone,Copy
pub type Impl = (Implementation, OperationCategory, HelpMessage);
//@item Implementations
//@item Keys
pub open spec fn loc_of(i: Implementation) -> Location { match i { Implementation::Intrinsic { loc, .. } => loc, Implementation::Definition(d) => d.loc } }
/// what clearing keeps
pub open spec fn kept(l: Location, only_files: bool) -> bool { match l { Location::Ogma => true, Location::Shell => only_files, Location::File(_, _) => false } }
pub open spec fn ty_kept(t: Type, only_files: bool) -> bool { match t { Type::Def(d) => kept(d.loc, only_files), _ => true } }
/// one that users may not replace
pub open spec fn builtin(i: Implementation) -> bool { match i { Implementation::Intrinsic { .. } => true, Implementation::Definition(d) => d.loc == Location::Ogma } }
impl Implementation {
//@fn Implementation::location
    ensures *ret == loc_of(*self)
//@endfn
}
impl Fresh for Keys { open spec fn fresh(&self) -> bool { self.vacant() } }
impl Keys {
    pub open spec fn at(&self, t: Option<TK>) -> Option<Impl> {
        match t { Some(t) => if self.tys@.contains_key(K::Ty(t)) { Some(self.tys@[K::Ty(t)]) } else { None }, None => self.agnostic }
    }
    pub open spec fn vacant(&self) -> bool { self.agnostic is None && forall|k: K| !self.tys@.contains_key(k) }
    /// only types are keys
    pub open spec fn typed(&self) -> bool { forall|k: K| #[trigger] self.tys@.contains_key(k) ==> k is Ty }
    /// the one used for an input of type t: its own, or the one for any input
    pub open spec fn used(&self, t: TK) -> Option<Impl> { if self.at(Some(t)) is Some { self.at(Some(t)) } else { self.at(None) } }
//@fn Keys::get_impl
    ensures ret is Some <==> self.used(tk(*ty)) is Some, ret is Some ==> Some(*ret->Some_0) == self.used(tk(*ty))
//@endfn
//@fn Keys::retain
//@sig fn retain<F: Fn(Option<&Type>, &Implementation, &OperationCategory, &HelpMessage) -> bool>(&mut self, predicate: F)
    requires forall|t: Option<&Type>, i: &Implementation, o: &OperationCategory, h: &HelpMessage| #[trigger] predicate.requires((t, i, o, h))
    ensures
        forall|k: K| #[trigger] final(self).tys@.contains_key(k) ==> old(self).tys@.contains_key(k) && final(self).tys@[k] == old(self).tys@[k],
        forall|k: K| #[trigger] old(self).tys@.contains_key(k) ==> ({ let e = old(self).tys@[k]; exists|a: &Type| #[trigger] a.k() == k && predicate.ensures((Some(a), &e.0, &e.1, &e.2), final(self).tys@.contains_key(k)) }),
        final(self).agnostic is Some ==> final(self).agnostic == old(self).agnostic,
        old(self).agnostic is Some ==> ({ let e = old(self).agnostic->Some_0; predicate.ensures((None, &e.0, &e.1, &e.2), final(self).agnostic is Some) }),
//@endfn
//@fn Keys::is_empty
    ensures ret == self.vacant()
//@endfn
}
impl Implementations {
    /// the implementation of an op for one input type, or for any (None)
    pub open spec fn at(&self, n: Seq<char>, t: Option<TK>) -> Option<Impl> { if self.0@.contains_key(K::Txt(n)) { self.0@[K::Txt(n)].at(t) } else { None } }
    /// no op is without implementations
    pub open spec fn tidy(&self) -> bool { forall|k: K| #[trigger] self.0@.contains_key(k) ==> k is Txt && !self.0@[k].vacant() && self.0@[k].typed() }
    pub open spec fn op(&self, n: Seq<char>) -> bool { exists|t: Option<TK>| #[trigger] self.at(n, t) is Some }
    pub open spec fn used(&self, n: Seq<char>, t: TK) -> Option<Impl> { if self.at(n, Some(t)) is Some { self.at(n, Some(t)) } else { self.at(n, None) } }
    /// nothing differs
    pub open spec fn same(&self, o: &Implementations) -> bool { forall|n: Seq<char>, t: Option<TK>| #[trigger] self.at(n, t) == o.at(n, t) }
    /// the two differ only in the implementation of one op for one input
    pub open spec fn with(&self, o: &Implementations, n: Seq<char>, t: Option<TK>, e: Impl) -> bool {
        forall|m: Seq<char>, u: Option<TK>| #[trigger] self.at(m, u) == (if m == n && u == t { Some(e) } else { o.at(m, u) })
    }
    pub proof fn lem_op(&self, n: Seq<char>) requires self.tidy() ensures self.op(n) == self.0@.contains_key(K::Txt(n)) {
        if self.0@.contains_key(K::Txt(n)) {
            let k = self.0@[K::Txt(n)];
            if k.agnostic is Some { assert(self.at(n, None) is Some); } else {
                let q = choose|q: K| k.tys@.contains_key(q);
                match q { K::Ty(t) => { assert(self.at(n, Some(t)) is Some); } _ => {} }
            }
        }
    }
//@fn Implementations::contains_op
    requires self.tidy()
    ensures ret == self.op(name@)
//@head
    proof { self.lem_op(name@); }
//@endfn
//@fn Implementations::get_help
    ensures ret is Some <==> self.used(op@, tk(*ty)) is Some, ret is Some ==> *ret->Some_0 == self.used(op@, tk(*ty))->Some_0.2
//@endfn
//@fn Implementations::get_impl
    ensures ret is Some <==> self.used(op@, tk(*ty)) is Some, ret is Some ==> *ret->Some_0 == self.used(op@, tk(*ty))->Some_0.0
//@endfn
//@fn Implementations::get_impl_with_err
    requires self.tidy()
    ensures ret is Ok <==> self.used(op@, tk(*ty)) is Some, ret is Ok ==> *ret->Ok_0 == self.used(op@, tk(*ty))->Some_0.0
//@endfn
}
pub open spec fn keys_at(m: Map<K, Keys>, n: Seq<char>, t: Option<TK>) -> Option<Impl> { if m.contains_key(K::Txt(n)) { m[K::Txt(n)].at(t) } else { None } }
/// the names whose entries are not empty stay
fn v_keep<F: Fn(&Str, &Keys) -> bool>(m: &mut HMap<Str, Keys>, f: F)
    requires forall|a: &Str, v: &Keys| #[trigger] f.requires((a, v)), forall|a: &Str, v: &Keys, b: bool| #[trigger] f.ensures((a, v), b) ==> b == !v.vacant(),
        forall|k: K| #[trigger] old(m)@.contains_key(k) ==> k is Txt && old(m)@[k].typed(),
    ensures forall|n: Seq<char>, t: Option<TK>| #[trigger] keys_at(final(m)@, n, t) == keys_at(old(m)@, n, t),
        forall|k: K| #[trigger] final(m)@.contains_key(k) ==> k is Txt && !final(m)@[k].vacant() && final(m)@[k].typed(),
{
    m.v_retain(f);
    proof {
        assert forall|n: Seq<char>, t: Option<TK>| #[trigger] keys_at(m@, n, t) == keys_at(old(m)@, n, t) by {
            let k = K::Txt(n);
            if old(m)@.contains_key(k) { if !m@.contains_key(k) { assert(old(m)@[k].vacant()); } }
        }
        assert forall|k: K| #[trigger] m@.contains_key(k) implies k is Txt && !m@[k].vacant() && m@[k].typed() by { assert(old(m)@.contains_key(k)); }
    }
}
pub open spec fn otk(t: Option<Type>) -> Option<TK> { match t { Some(t) => Some(tk(t)), None => None } }
pub open spec fn pred_b(e: Option<Impl>) -> bool { e is Some && builtin(e->Some_0.0) }
impl Implementations {
    /// clearing, for one op and input
    pub open spec fn clr(e: Option<Impl>, only_files: bool) -> Option<Impl> { if e is Some && kept(loc_of(e->Some_0.0), only_files) { e } else { None } }
    pub open spec fn cleared(&self, o: &Implementations, only_files: bool) -> bool { forall|n: Seq<char>, t: Option<TK>| #[trigger] self.at(n, t) == Self::clr(o.at(n, t), only_files) }
//@fn Implementations::insert_intrinsic
//@sig fn insert_intrinsic(&mut self, op: Str, in_ty: Option<Type>, f: IntrinsicFn, loc: Location, cat: OperationCategory, help: HelpMessage)
    requires old(self).tidy(), old(self).at(op@, otk(in_ty)) is None
    ensures final(self).tidy(), final(self).with(&*old(self), op@, otk(in_ty), (Implementation::Intrinsic { loc, f }, cat, help))
//@tail
    proof { let k = self.0@[K::Txt(op@)]; match otk(in_ty) { Some(t) => { assert(k.tys@.contains_key(K::Ty(t))); } None => {} } }
//@endfn
//@fn Implementations::insert_impl
//@sig pub fn insert_impl(&mut self, in_ty: Option<Type>, def: ast::DefinitionImpl, cat: OperationCategory, help: HelpMessage) -> (ret: Result<()>)
    requires old(self).tidy()
    ensures final(self).tidy(),
        ret is Ok <==> !pred_b(old(self).at(def.name@, otk(in_ty))),
        ret is Ok ==> final(self).with(&*old(self), def.name@, otk(in_ty), (Implementation::Definition(Box::new(def)), cat, help)),
        ret is Err ==> final(self).same(&*old(self)),
//@tail
    proof { let k = self.0@[K::Txt(def.name@)]; match otk(in_ty) { Some(t) => { assert(k.tys@.contains_key(K::Ty(t))); } None => {} } }
//@endfn
//@fn Implementations::clear
    requires old(self).tidy()
    ensures final(self).tidy(), final(self).cleared(&*old(self), only_files)
//@loop 0
            invariant
                __k <= __ks@.len(),
                old(self).tidy(),
                forall|k: K| #[trigger] self.0@.contains_key(k) == old(self).0@.contains_key(k),
                forall|k: K| old(self).0@.contains_key(k) <==> exists|i: int| 0 <= i < __ks@.len() && (#[trigger] __ks@[i]).k() == k,
                forall|i: int, j: int| 0 <= i < j < __ks@.len() ==> (#[trigger] __ks@[i]).k() != (#[trigger] __ks@[j]).k(),
                forall|i: int| 0 <= i < __k ==> Self::clk(old(self).0@[(#[trigger] __ks@[i]).k()], self.0@[__ks@[i].k()], only_files),
                forall|i: int| __k <= i < __ks@.len() ==> self.0@[(#[trigger] __ks@[i]).k()] == old(self).0@[__ks@[i].k()],
            decreases __ks@.len() - __k,
//@after 0
        proof {
            assert forall|n: Seq<char>, t: Option<TK>| #[trigger] keys_at(self.0@, n, t) == Self::clr(old(self).at(n, t), only_files) by {
                let k = K::Txt(n);
                if old(self).0@.contains_key(k) { assert(self.0@.contains_key(k)); assert(Self::clk(old(self).0@[k], self.0@[k], only_files)); }
            }
            assert forall|k: K| #[trigger] self.0@.contains_key(k) implies k is Txt && self.0@[k].typed() by { assert(old(self).0@.contains_key(k)); assert(Self::clk(old(self).0@[k], self.0@[k], only_files)); }
        }
//@tail
    proof { assert forall|n: Seq<char>, t: Option<TK>| #[trigger] self.at(n, t) == Self::clr(old(self).at(n, t), only_files) by { assert(self.at(n, t) == keys_at(self.0@, n, t)); } }
//@loophead 0
            let ghost __was = self.0@;
            assert(old(self).0@.contains_key(__ks@[__k as int].k()));
            assert(self.0@.contains_key(__ks@[__k as int].k()));
            assert(old(self).0@[__ks@[__k as int].k()].typed());
//@looptail 0
            proof {
                let __q = __ks@[__k - 1].k();
                assert(Self::clk(__was[__q], self.0@[__q], only_files)) by { lem_clk(__was[__q], self.0@[__q], only_files); }
            }
//@endfn
    pub open spec fn clk(o: Keys, n: Keys, only_files: bool) -> bool { n.typed() && forall|t: Option<TK>| #[trigger] n.at(t) == Self::clr(o.at(t), only_files) }
}
/// from what is kept, key by key
pub proof fn lem_clk(o: Keys, n: Keys, only_files: bool)
    requires o.typed(),
        forall|k: K| #[trigger] n.tys@.contains_key(k) ==> o.tys@.contains_key(k) && n.tys@[k] == o.tys@[k],
        forall|k: K| #[trigger] o.tys@.contains_key(k) ==> n.tys@.contains_key(k) == kept(loc_of(o.tys@[k].0), only_files),
        n.agnostic == Implementations::clr(o.agnostic, only_files),
    ensures Implementations::clk(o, n, only_files)
{
    assert forall|t: Option<TK>| #[trigger] n.at(t) == Implementations::clr(o.at(t), only_files) by {
        match t { Some(t) => { assert(o.tys@.contains_key(K::Ty(t)) || !o.tys@.contains_key(K::Ty(t))); assert(n.tys@.contains_key(K::Ty(t)) || !n.tys@.contains_key(K::Ty(t))); } None => {} }
    }
}

// ------ initialisers of types
// the text "type::variant", as a Str and as a String
#[verifier::external_body]
pub fn v_variant(t: &Tag, v: &Tag) -> (r: Str) ensures r@ == variant_name(t@, v@) { unimplemented!() }
#[verifier::external_body]
pub fn v_variant_s(t: &Tag, v: &Tag) -> (r: String) ensures r@ == variant_name(t@, v@) { unimplemented!() }
pub open spec fn variant_name(t: Seq<char>, v: Seq<char>) -> Seq<char> { t + seq![':', ':'] + v }
#[verifier::external_body]
pub fn v_one<T>(s: T) -> (r: Vec<T>) ensures r@ == seq![s] { unimplemented!() }
#[verifier::external_body]
pub fn v_name(t: &Tag) -> (r: String) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body]
pub fn v_among(ops: &Vec<String>, i: usize, op: &String) -> (r: bool) requires i <= ops@.len() ensures r == (exists|j: int| 0 <= j < i && (#[trigger] ops@[j])@ == op@) { unimplemented!() }
#[verifier::external_body]
pub fn v_fields_or(f: &Option<Vec<Field>>) -> (r: Vec<Field>) ensures r@ == fields_or(*f) { unimplemented!() }
#[verifier::external_body]
pub fn v_fields(f: &Vec<Field>) -> (r: Vec<Field>) ensures r@ == f@ { unimplemented!() }
#[verifier::external_body]
pub fn v_arc(t: TypeDef) -> (r: Arc<TypeDef>) ensures *r == t { unimplemented!() }
pub open spec fn fields_or(f: Option<Vec<Field>>) -> Seq<Field> { match f { Some(f) => f@, None => Seq::empty() } }
impl TypeDef {
//@src ogma/src/lang/types.rs
//@fn TypeDef::name
    ensures *ret == self.name
//@endfn
//@fn TypeDef::structure
    ensures *ret == self.ty
//@endfn
    /// the number of its initialisers, their names, and what each builds
    pub open spec fn inits(&self) -> int { match self.ty { TypeVariant::Sum(v) => v@.len() as int, TypeVariant::Product(_) => 1 } }
    pub open spec fn init_name(&self, i: int) -> Seq<char> { match self.ty { TypeVariant::Sum(v) => variant_name(self.name@, v@[i].name@), TypeVariant::Product(_) => self.name@ } }
    pub open spec fn init_fields(&self, i: int) -> Seq<Field> { match self.ty { TypeVariant::Sum(v) => fields_or(v@[i].fields), TypeVariant::Product(f) => f@ } }
    pub open spec fn prod(&self) -> bool { self.ty is Product }
    pub open spec fn named(&self) -> Seq<char> { self.name@ }
    pub open spec fn distinct(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self.inits() ==> #[trigger] self.init_name(i) != #[trigger] self.init_name(j) }
    /// no op has the name of an initialiser
    pub open spec fn free(&self, m: &Implementations) -> bool { self.distinct() && forall|i: int| 0 <= i < self.inits() ==> m.at(#[trigger] self.init_name(i), None) is None }
    /// entry e is initialiser i
    pub open spec fn init(&self, e: Option<Impl>, i: int) -> bool {
        e is Some && e->Some_0.1 == OperationCategory::Init && match e->Some_0.0 { Implementation::Intrinsic { loc, f } => loc == self.loc && init_of(f) == (*self, i, self.init_fields(i)), _ => false }
    }
    /// m is o with this type's first n initialisers
    pub open spec fn added(&self, m: &Implementations, o: &Implementations, n: int) -> bool {
        &&& forall|i: int| 0 <= i < n ==> self.init(m.at(#[trigger] self.init_name(i), None), i)
        &&& forall|x: Seq<char>, t: Option<TK>| (t is Some || forall|i: int| 0 <= i < n ==> #[trigger] self.init_name(i) != x) ==> #[trigger] m.at(x, t) == o.at(x, t)
    }
}
//@src ogma/src/lang/impls/mod.rs
//@known typedef_init_help usr_impl_help
//@fn assert_init_ops_undefined
    ensures ret is Ok <==> tydef.free(impls)
//@loop 0
        invariant
            __vs@.len() == tydef.inits(), tydef.ty is Sum, tydef.ty->Sum_0 == *__vs,
            __k <= __vs@.len(), __r@.len() == __k, forall|i: int| 0 <= i < __k ==> (#[trigger] __r@[i])@ == tydef.init_name(i),
        decreases __vs@.len() - __k,
//@loop 1
        invariant
            __vs@.len() == tydef.inits(), *__vs == ops,
            __k <= __vs@.len(), forall|i: int| 0 <= i < __vs@.len() ==> (#[trigger] __vs@[i])@ == tydef.init_name(i),
            forall|i: int| 0 <= i < __k ==> impls.at(#[trigger] tydef.init_name(i), None) is None,
            forall|i: int, j: int| 0 <= i < j < __k ==> #[trigger] tydef.init_name(i) != #[trigger] tydef.init_name(j),
        decreases __vs@.len() - __k,
//@loophead 1
        assert(__vs@[__k as int]@ == tydef.init_name(__k as int));
//@looptail 1
        proof {
            let q = __k - 1;
            assert forall|i: int, j: int| 0 <= i < j < __k implies #[trigger] tydef.init_name(i) != #[trigger] tydef.init_name(j) by {
                assert(__vs@[i]@ == tydef.init_name(i) && __vs@[j]@ == tydef.init_name(j));
            }
        }
//@endfn
//@fn add_typedef_init_impls/insert_intrinsic
    requires old(impls).tidy(), old(impls).at(op@, None) is None
    ensures final(impls).tidy(),
        ({ let e = final(impls).at(op@, None); e is Some && e->Some_0.1 == OperationCategory::Init && match e->Some_0.0 { Implementation::Intrinsic { loc: l, f } => l == loc && init_of(f) == (*tydef, variant_idx as int, fields@), _ => false } }),
        forall|x: Seq<char>, t: Option<TK>| (t is Some || x != op@) ==> #[trigger] final(impls).at(x, t) == old(impls).at(x, t),
//@endfn
//@fn add_typedef_init_impls
    requires old(impls).tidy(), tydef.free(&*old(impls))
    ensures final(impls).tidy(), tydef.added(&*final(impls), &*old(impls), tydef.inits())
//@loop 0
        invariant
            __vs@.len() == tydef.inits(), tydef.ty is Sum, tydef.ty->Sum_0 == *__vs,
            __k <= __vs@.len(), impls.tidy(), tydef.free(&*old(impls)), tydef.added(&*impls, &*old(impls), __k as int),
        decreases __vs@.len() - __k,
//@head
    let ghost td = tydef;
    assert(old(impls).at(tydef.init_name(0), None) is None || tydef.inits() == 0);
//@loophead 0
        let ghost __was = *impls;
        proof {
            let n = tydef.init_name(__k as int);
            assert(old(impls).at(n, None) is None);
            assert forall|i: int| 0 <= i < __k implies #[trigger] tydef.init_name(i) != n by {}
            assert(impls.at(n, None) == old(impls).at(n, None));
        }
//@looptail 0
        proof {
            let q = __k - 1;
            assert forall|i: int| 0 <= i < __k implies tydef.init(impls.at(#[trigger] tydef.init_name(i), None), i) by {
                if i < q { assert(tydef.init_name(i) != tydef.init_name(q)); assert(impls.at(tydef.init_name(i), None) == __was.at(tydef.init_name(i), None)); }
            }
            assert forall|x: Seq<char>, t: Option<TK>| (t is Some || forall|i: int| 0 <= i < __k ==> #[trigger] tydef.init_name(i) != x) implies #[trigger] impls.at(x, t) == old(impls).at(x, t) by {
                if t is None { assert(tydef.init_name(q) != x); }
                assert(impls.at(x, t) == __was.at(x, t));
            }
        }
//@tail
    proof { if td.prod() {
        assert(td.init_name(0) == td.named());
        assert forall|x: Seq<char>, t: Option<TK>| (t is Some || forall|i: int| 0 <= i < 1 ==> #[trigger] td.init_name(i) != x) implies #[trigger] impls.at(x, t) == old(impls).at(x, t) by { if t is None { assert(td.init_name(0) != x); } }
    } }
//@endfn
// ------ types
impl Types {
    pub open spec fn ty(&self, n: Seq<char>) -> Option<Type> { if self.map@.contains_key(K::Txt(n)) { Some(self.map@[K::Txt(n)]) } else { None } }
    pub open spec fn same(&self, o: &Types) -> bool { forall|n: Seq<char>| #[trigger] self.ty(n) == o.ty(n) }
    pub open spec fn texts(&self) -> bool { forall|k: K| #[trigger] self.map@.contains_key(k) ==> k is Txt }
    pub open spec fn with(&self, o: &Types, n: Seq<char>, t: Type) -> bool { forall|m: Seq<char>| #[trigger] self.ty(m) == (if m == n { Some(t) } else { o.ty(m) }) }
    pub open spec fn clr(t: Option<Type>, only_files: bool) -> Option<Type> { if t is Some && ty_kept(t->Some_0, only_files) { t } else { None } }
    pub open spec fn cleared(&self, o: &Types, only_files: bool) -> bool { forall|n: Seq<char>| #[trigger] self.ty(n) == Self::clr(o.ty(n), only_files) }
//@src ogma/src/lang/types.rs
//@fn Types::get_using_str
    ensures ret is Some <==> self.ty(type_name@) is Some, ret is Some ==> *ret->Some_0 == self.ty(type_name@)->Some_0
//@endfn
//@fn Types::get_using_tag
    ensures ret is Ok <==> self.ty(type_name@) is Some, ret is Ok ==> *ret->Ok_0 == self.ty(type_name@)->Some_0
//@endfn
//@fn Types::contains_type
    ensures ret == (self.ty(type_name@) is Some)
//@endfn
//@fn Types::clear
    ensures final(self).cleared(&*old(self), only_files)
//@tail
    proof {
        assert forall|n: Seq<char>| #[trigger] self.ty(n) == Self::clr(old(self).ty(n), only_files) by {
            assert(old(self).map@.contains_key(K::Txt(n)) || !old(self).map@.contains_key(K::Txt(n)));
            assert(self.map@.contains_key(K::Txt(n)) || !self.map@.contains_key(K::Txt(n)));
        }
    }
//@endfn
}
/// the type a field is written with, and that of its parameters
pub open spec fn field_ok(f: ast::Field, t: &Types) -> bool { t.ty(f.ty@) is Some && forall|i: int| 0 <= i < f.params@.len() ==> t.ty((#[trigger] f.params@[i])@) is Some }
pub open spec fn fields_ok(f: Seq<ast::Field>, t: &Types) -> bool { forall|i: int| 0 <= i < f.len() ==> field_ok(#[trigger] f[i], t) }
pub open spec fn field_is(r: Field, f: ast::Field, t: &Types) -> bool { r.name == f.name && Some(r.ty) == t.ty(f.ty@) && r._params@.len() == f.params@.len() && forall|i: int| 0 <= i < f.params@.len() ==> Some(#[trigger] r._params@[i]) == t.ty(f.params@[i]@) }
pub open spec fn fields_are(r: Seq<Field>, f: Seq<ast::Field>, t: &Types) -> bool { r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> field_is(#[trigger] r[i], f[i], t) }
pub open spec fn variant_ok(v: ast::Variant, t: &Types) -> bool { v.fields is Some ==> fields_ok(v.fields->Some_0@, t) }
pub open spec fn variant_is(r: Variant, v: ast::Variant, t: &Types) -> bool { r.name == v.name && r.fields is Some == v.fields is Some && (v.fields is Some ==> fields_are(r.fields->Some_0@, v.fields->Some_0@, t)) }
/// every type it mentions is defined
pub open spec fn type_ok(d: ast::DefinitionType, t: &Types) -> bool {
    match d.ty { ast::TypeVariant::Sum(v) => forall|i: int| 0 <= i < v@.len() ==> variant_ok(#[trigger] v@[i], t), ast::TypeVariant::Product(f) => fields_ok(f@, t) }
}
/// r is the type which d writes
pub open spec fn type_is(r: TypeDef, d: ast::DefinitionType, help: Option<String>, t: &Types) -> bool {
    &&& r.loc == d.loc && r.src == d.src && r.help == help && r.name == d.name
    &&& match (r.ty, d.ty) {
        (TypeVariant::Sum(a), ast::TypeVariant::Sum(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> variant_is(#[trigger] a@[i], b@[i], t),
        (TypeVariant::Product(a), ast::TypeVariant::Product(b)) => fields_are(a@, b@, t),
        _ => false,
    }
}
//@fn from_parsed_fields
    ensures ret is Ok <==> fields_ok(fields@, types), ret is Ok ==> fields_are(ret->Ok_0@, fields@, types)
//@loop 0
        invariant
            __n == fields@.len(), __vs@ == fields@.skip(__k as int), __k <= __n, v@.len() == __k,
            forall|i: int| 0 <= i < __k ==> field_ok(#[trigger] fields@[i], types),
            forall|i: int| 0 <= i < __k ==> field_is(#[trigger] v@[i], fields@[i], types),
        decreases __n - __k,
//@loophead 0
        let ghost __q = __k as int;
        assert(__vs@[0] == fields@[__k as int]);
        assert(__vs@.remove(0) =~= fields@.skip(__k + 1));
        assert(fields_ok(fields@, types) ==> field_ok(fields@[__k as int], types));
//@loop 1
            invariant
                __n == fields@[__q].params@.len(), __vs@ == fields@[__q].params@.skip(__k as int), __k <= __n, params@.len() == __k, 0 <= __q < fields@.len(),
                forall|i: int| 0 <= i < __k ==> types.ty((#[trigger] fields@[__q].params@[i])@) is Some,
                forall|i: int| 0 <= i < __k ==> Some(#[trigger] params@[i]) == types.ty(fields@[__q].params@[i]@),
                fields_ok(fields@, types) ==> field_ok(fields@[__q], types),
            decreases __n - __k,
//@loophead 1
            assert(__vs@[0] == fields@[__q].params@[__k as int]);
            assert(__vs@.remove(0) =~= fields@[__q].params@.skip(__k + 1));
//@endfn
impl TypeDef {
//@fn TypeDef::from_parsed_def
    ensures ret is Ok <==> type_ok(def, types), ret is Ok ==> type_is(ret->Ok_0, def, help, types)
//@loop 0
        invariant
            def.ty is Sum, __n == def.ty->Sum_0@.len(), __vs@ == def.ty->Sum_0@.skip(__k as int), __k <= __n, v@.len() == __k,
            forall|i: int| 0 <= i < __k ==> variant_ok(#[trigger] def.ty->Sum_0@[i], types),
            forall|i: int| 0 <= i < __k ==> variant_is(#[trigger] v@[i], def.ty->Sum_0@[i], types),
        decreases __n - __k,
//@loophead 0
        assert(__vs@[0] == def.ty->Sum_0@[__k as int]);
        assert(__vs@.remove(0) =~= def.ty->Sum_0@.skip(__k + 1));
        assert(type_ok(def, types) ==> variant_ok(def.ty->Sum_0@[__k as int], types));
//@endfn
}
//@src ogma/src/lang/defs.rs
//@item Definitions
//@src ogma/src/lang/types.rs
// the parsers of definitions; which text they accept is not under contract
pub uninterp spec fn p_type(s: Seq<char>, loc: Location) -> Option<ast::DefinitionType>;
pub uninterp spec fn p_impl(s: Seq<char>, loc: Location, d: Definitions) -> Option<ast::DefinitionImpl>;
#[verifier::external_body]
pub fn definition_type(s: &str, loc: Location) -> (r: Result<ast::DefinitionType>) ensures r is Ok <==> p_type(s@, loc) is Some, r is Ok ==> r->Ok_0 == p_type(s@, loc)->Some_0 { unimplemented!() }
#[verifier::external_body]
pub fn definition_impl(s: &str, loc: Location, d: &Definitions) -> (r: Result<ast::DefinitionImpl>) ensures r is Ok <==> p_impl(s@, loc, *d) is Some, r is Ok ==> r->Ok_0 == p_impl(s@, loc, *d)->Some_0 { unimplemented!() }
/// the type d may be added: what it mentions is defined, and neither it nor its initialisers are
pub open spec fn addable(d: ast::DefinitionType, r: TypeDef, help: Option<String>, t: &Types, m: &Implementations) -> bool { type_ok(d, t) && t.ty(d.name@) is None && type_is(r, d, help, t) && r.free(m) }
impl Types {
//@fn Types::insert_inner
    ensures
        ret is Ok <==> ({ let p = p_type(def@, loc); p is Some && type_ok(p->Some_0, &*old(self)) && old(self).ty(p->Some_0.name@) is None }),
        ret is Ok ==> ({ let p = p_type(def@, loc)->Some_0; type_is(*ret->Ok_0, p, help, &*old(self)) && final(self).map@ == old(self).map@.insert(K::Txt(p.name@), Type::Def(ret->Ok_0)) && !old(self).map@.contains_key(K::Txt(p.name@)) }),
        ret is Err ==> final(self).map@ == old(self).map@,
//@endfn
    /// the type which the text defines has been added, with its initialisers
    pub open spec fn plus(t0: &Types, m0: &Implementations, t1: &Types, m1: &Implementations, def: Seq<char>, loc: Location, help: Option<String>) -> bool {
        p_type(def, loc) is Some && exists|r: Arc<TypeDef>| #[trigger] Self::plus_r(t0, m0, t1, m1, p_type(def, loc)->Some_0, help, r)
    }
    pub open spec fn plus_r(t0: &Types, m0: &Implementations, t1: &Types, m1: &Implementations, p: ast::DefinitionType, help: Option<String>, r: Arc<TypeDef>) -> bool {
        addable(p, *r, help, t0, m0) && t1.with(t0, p.name@, Type::Def(r)) && r.added(m1, m0, r.inits())
    }
//@fn Types::insert
    requires old(impls).tidy()
    ensures final(impls).tidy(),
        ret is Err ==> final(self).same(&*old(self)) && final(impls).same(&*old(impls)),
        ret is Ok ==> Self::plus(&*old(self), &*old(impls), &*final(self), &*final(impls), def@, loc, help),
        // refused only for a reason
        ret is Err ==> ({ let p = p_type(def@, loc); p is None || !type_ok(p->Some_0, &*old(self)) || old(self).ty(p->Some_0.name@) is Some || exists|r: TypeDef| type_is(r, p->Some_0, help, &*old(self)) && !#[trigger] r.free(&*old(impls)) }),
//@tail
    proof {
        let p = p_type(def@, loc)->Some_0;
        match self.map@[K::Txt(p.name@)] { Type::Def(r) => { assert(Self::plus_r(&*old(self), &*old(impls), self, impls, p, help, r)); } _ => {} }
    }
//@endfn
}
// ------ definitions
#[verifier::external_body]
pub struct Table { p: u8 }
pub enum Value { Nil, Tab(Table), Other(Table) }
// the listing itself is only formatting
#[verifier::external_body]
pub fn construct_def_table(d: &Definitions) -> (r: Table) { unimplemented!() }
pub type DefResult<'a> = Result<(Value, Option<&'a str>)>;
/// t is written somewhere in s
pub open spec fn written(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t }
pub open spec fn brace(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == '{' }
/// what is before the first brace
pub open spec fn head_of(s: Seq<char>, h: Seq<char>) -> bool {
    &&& h.len() <= s.len() && h == s.subrange(0, h.len() as int)
    &&& forall|i: int| 0 <= i < h.len() ==> !#[trigger] brace(s, i)
    &&& h.len() < s.len() ==> brace(s, h.len() as int)
}
pub proof fn lem_head(s: Seq<char>, h: Seq<char>, g: Seq<char>) requires head_of(s, h), head_of(s, g) ensures h == g {
    if h.len() < g.len() { assert(!brace(s, h.len() as int)); } else if g.len() < h.len() { assert(!brace(s, g.len() as int)); }
}
pub open spec fn begins(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) == t }
#[verifier::external_body]
pub fn v_before(s: &str) -> (r: &str) ensures head_of(s@, r@) { unimplemented!() }
#[verifier::external_body]
pub fn v_contains(s: &str, t: &str) -> (r: bool) ensures r == written(s@, t@) { unimplemented!() }
#[verifier::external_body]
pub fn v_starts(s: &str, t: &str) -> (r: bool) ensures r == begins(s@, t@) { unimplemented!() }
#[verifier::external_body]
pub fn v_flag<'a>(head: &'a str) -> (r: Option<&'a &'a str>) ensures r is Some <==> written(head@, " --list"@) || written(head@, " --clear"@) { unimplemented!() }
// the text after the first " | "
pub uninterp spec fn rest_of(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn v_rest<'a>(s: &'a str) -> (r: Option<&'a str>) ensures r is Some <==> rest_of(s@) is Some, r is Some ==> r->Some_0@ == rest_of(s@)->Some_0 { unimplemented!() }
// ------ every op of a definition's body is defined
pub open spec fn ok_to(e: ast::Expression, m: &Implementations, d: nat) -> bool decreases d, 0int { d == 0 || forall|b: int| 0 <= b < e.blocks@.len() ==> block_ok(#[trigger] e.blocks@[b], m, (d - 1) as nat) }
pub open spec fn block_ok(b: ast::Block, m: &Implementations, d: nat) -> bool decreases d, 2int { m.op(b.s_op()) && forall|t: int| 0 <= t < b.s_terms().len() ==> term_ok(#[trigger] b.s_terms()[t], m, d) }
pub open spec fn term_ok(t: ast::Term, m: &Implementations, d: nat) -> bool decreases d, 1int { match t { ast::Term::Arg(ast::Argument::Expr(x)) => ok_to(x, m, d), _ => true } }

/// at any depth
pub open spec fn e_good(e: ast::Expression, m: &Implementations) -> bool { forall|d: nat| #[trigger] ok_to(e, m, d) }
pub open spec fn t_good(t: ast::Term, m: &Implementations) -> bool { match t { ast::Term::Arg(ast::Argument::Expr(x)) => e_good(x, m), _ => true } }
pub open spec fn b_good(b: ast::Block, m: &Implementations) -> bool { m.op(b.s_op()) && forall|t: int| 0 <= t < b.s_terms().len() ==> t_good(#[trigger] b.s_terms()[t], m) }
/// the blocks from k on
pub open spec fn from_good(e: ast::Expression, m: &Implementations, k: int) -> bool { forall|b: int| k <= b < e.blocks@.len() ==> b_good(#[trigger] e.blocks@[b], m) }
pub open spec fn all_good(s: Seq<ast::Expression>, m: &Implementations) -> bool { forall|i: int| 0 <= i < s.len() ==> e_good(#[trigger] s[i], m) }
pub proof fn lem_good(e: ast::Expression, m: &Implementations) ensures e_good(e, m) == from_good(e, m, 0) {
    if e_good(e, m) {
        assert forall|b: int| 0 <= b < e.blocks@.len() implies b_good(#[trigger] e.blocks@[b], m) by {
            let k = e.blocks@[b];
            assert(ok_to(e, m, 1)); assert(block_ok(k, m, 0));
            assert forall|t: int| 0 <= t < k.s_terms().len() implies t_good(#[trigger] k.s_terms()[t], m) by {
                match k.s_terms()[t] { ast::Term::Arg(ast::Argument::Expr(x)) => { assert forall|d: nat| #[trigger] ok_to(x, m, d) by { assert(ok_to(e, m, d + 1)); assert(block_ok(k, m, d)); assert(term_ok(k.s_terms()[t], m, d)); } } _ => {} }
            }
        }
    }
    if from_good(e, m, 0) {
        assert forall|d: nat| #[trigger] ok_to(e, m, d) by {
            if d > 0 { assert forall|b: int| 0 <= b < e.blocks@.len() implies block_ok(#[trigger] e.blocks@[b], m, (d - 1) as nat) by {
                let k = e.blocks@[b];
                assert(b_good(k, m));
                assert forall|t: int| 0 <= t < k.s_terms().len() implies term_ok(#[trigger] k.s_terms()[t], m, (d - 1) as nat) by { assert(t_good(k.s_terms()[t], m)); match k.s_terms()[t] { ast::Term::Arg(ast::Argument::Expr(x)) => { assert(ok_to(x, m, (d - 1) as nat)); } _ => {} } }
            } }
        }
    }
}
//@src ogma/src/lang/defs.rs
//@fn assert_all_ops_defined
//@sig #[verifier::exec_allows_no_decreases_clause] fn assert_all_ops_defined(def: &ast::DefinitionImpl, defs: &Implementations) -> (ret: Result<()>)
    requires defs.tidy()
    ensures ret is Ok <==> e_good(def.expr, defs)
//@head
    proof {
        let s = seq![def.expr];
        assert(s[0] == def.expr);
        assert(all_good(s, defs) == e_good(def.expr, defs)) by { if all_good(s, defs) { assert(e_good(s[0], defs)); } }
        assert(Seq::<ast::Expression>::empty().push(def.expr) == s);
    }
//@loop 0
        invariant defs.tidy(), e_good(def.expr, defs) == all_good(check@, defs),
//@loophead 0
        let ghost __pre = check@;
        proof { lem_good(__pre[__pre.len() - 1], defs); assert(all_good(__pre, defs) == (all_good(__pre.drop_last(), defs) && e_good(__pre[__pre.len() - 1], defs))) by {
            if all_good(__pre, defs) { assert forall|i: int| 0 <= i < __pre.len() - 1 implies e_good(#[trigger] __pre.drop_last()[i], defs) by { assert(__pre[i] == __pre.drop_last()[i]); } }
            if all_good(__pre.drop_last(), defs) && e_good(__pre[__pre.len() - 1], defs) { assert forall|i: int| 0 <= i < __pre.len() implies e_good(#[trigger] __pre[i], defs) by { if i < __pre.len() - 1 { assert(__pre[i] == __pre.drop_last()[i]); } } }
        } }
//@loop 1
            invariant defs.tidy(), *__bs == __pre.last().blocks, __k <= __bs@.len(), e_good(def.expr, defs) == (all_good(check@, defs) && from_good(__pre.last(), defs, __k as int)), __pre.len() > 0,
//@loophead 1
            let ghost __b = __bs@[__k as int];
            let ghost __c = check@;
            proof { assert(from_good(__pre.last(), defs, __k as int) == (b_good(__b, defs) && from_good(__pre.last(), defs, __k + 1))); }
//@loop 2
                invariant __ts@ == __b.s_terms(), __j <= __ts@.len(),
                    (all_good(__c, defs) && b_good(__b, defs)) == (all_good(check@, defs) && forall|t: int| __j <= t < __ts@.len() ==> t_good(#[trigger] __ts@[t], defs)),
//@loophead 2
                let ghost __d = check@;
//@looptail 2
                proof {
                    let q = __j - 1;
                    match __ts@[q] { ast::Term::Arg(ast::Argument::Expr(x)) => { assert(check@ == __d.push(x));
                        assert(all_good(check@, defs) == (all_good(__d, defs) && e_good(x, defs))) by {
                            if all_good(check@, defs) { assert(e_good(check@[__d.len() as int], defs)); assert forall|i: int| 0 <= i < __d.len() implies e_good(#[trigger] __d[i], defs) by { assert(check@[i] == __d[i]); } }
                        } } _ => { assert(check@ == __d); } }
                }
//@endfn

/// what defining an op does
pub open spec fn def_op(d0: &Definitions, d1: &Definitions, s: Seq<char>, loc: Location, out: Result<(Value, Option<&str>)>) -> bool {
    let p = p_impl(s, loc, *d0);
    let ok = p is Some && e_good(p->Some_0.expr, &d0.impls) && (p->Some_0.in_ty is Some ==> d0.types.ty(p->Some_0.in_ty->Some_0@) is Some) && !pred_b(d0.impls.at(p->Some_0.name@, in_key(p->Some_0, d0)));
    &&& d1.types.same(&d0.types)
    &&& out is Ok <==> ok
    &&& ok ==> out->Ok_0.0 is Nil && out->Ok_0.1 is None && def_added(d0, d1, p->Some_0)
    &&& !ok ==> d1.impls.same(&d0.impls)
}
/// the input type of a definition
pub open spec fn in_key(p: ast::DefinitionImpl, d0: &Definitions) -> Option<TK> { match p.in_ty { Some(t) => Some(tk(d0.types.ty(t@)->Some_0)), None => None } }
pub open spec fn def_added(d0: &Definitions, d1: &Definitions, p: ast::DefinitionImpl) -> bool {
    exists|h: HelpMessage| #[trigger] d1.impls.with(&d0.impls, p.name@, in_key(p, d0), (Implementation::Definition(Box::new(p)), OperationCategory::UserDefined, h))
}
/// what a line starting with `def ` does
pub open spec fn line_def(d0: &Definitions, d1: &Definitions, s: Seq<char>, loc: Location, out: Result<(Value, Option<&str>)>) -> bool {
    exists|h: Seq<char>| #[trigger] head_of(s, h) && line_def_h(d0, d1, s, h, loc, out)
}
pub open spec fn line_def_h(d0: &Definitions, d1: &Definitions, s: Seq<char>, h: Seq<char>, loc: Location, out: Result<(Value, Option<&str>)>) -> bool {
    if written(h, "--help"@) { out is Err && unchanged(d0, d1) }
    else if written(h, " --list"@) { out is Ok && out->Ok_0.0 is Tab && (out->Ok_0.1 is Some <==> rest_of(s) is Some) && (rest_of(s) is Some ==> out->Ok_0.1->Some_0@ == rest_of(s)->Some_0) && unchanged(d0, d1) }
    else if written(h, " --clear"@) { out is Ok && out->Ok_0.0 is Nil && out->Ok_0.1 is None && d1.impls.cleared(&d0.impls, false) && d1.types.cleared(&d0.types, false) }
    else { def_op(d0, d1, s, loc, out) }
}
pub open spec fn unchanged(d0: &Definitions, d1: &Definitions) -> bool { d1.types.same(&d0.types) && d1.impls.same(&d0.impls) }
/// what a line starting with `def-ty ` does
pub open spec fn line_ty(d0: &Definitions, d1: &Definitions, s: Seq<char>, loc: Location, help: Option<String>, out: Result<(Value, Option<&str>)>) -> bool {
    exists|h: Seq<char>| #[trigger] head_of(s, h) && line_ty_h(d0, d1, s, h, loc, help, out)
}
pub open spec fn line_ty_h(d0: &Definitions, d1: &Definitions, s: Seq<char>, h: Seq<char>, loc: Location, help: Option<String>, out: Result<(Value, Option<&str>)>) -> bool {
    let flag = written(h, "--help"@) || written(h, " --list"@) || written(h, " --clear"@);
    &&& flag ==> out is Err
    &&& out is Err ==> unchanged(d0, d1)
    &&& out is Ok ==> out->Ok_0.0 is Nil && out->Ok_0.1 is None && Types::plus(&d0.types, &d0.impls, &d1.types, &d1.impls, s, loc, help)
    &&& out is Err && !flag ==> ({ let p = p_type(s, loc); p is None || !type_ok(p->Some_0, &d0.types) || d0.types.ty(p->Some_0.name@) is Some || exists|r: TypeDef| type_is(r, p->Some_0, help, &d0.types) && !#[trigger] r.free(&d0.impls) })
}
/// what a definition does
pub open spec fn line(d0: &Definitions, d1: &Definitions, s: Seq<char>, loc: Location, help: Option<String>, out: Result<(Value, Option<&str>)>) -> bool {
    if begins(s, "def "@) { line_def(d0, d1, s, loc, out) } else if begins(s, "def-ty "@) { line_ty(d0, d1, s, loc, help, out) } else { out is Err && unchanged(d0, d1) }
}
pub proof fn lem_err(d0: &Definitions, d1: &Definitions, s: Seq<char>, loc: Location, help: Option<String>, out: Result<(Value, Option<&str>)>)
    requires line(d0, d1, s, loc, help, out), out is Err
    ensures unchanged(d0, d1)
{
    if begins(s, "def "@) { let h = choose|h: Seq<char>| #[trigger] head_of(s, h) && line_def_h(d0, d1, s, h, loc, out); assert(line_def_h(d0, d1, s, h, loc, out)); }
    else if begins(s, "def-ty "@) { let h = choose|h: Seq<char>| #[trigger] head_of(s, h) && line_ty_h(d0, d1, s, h, loc, help, out); assert(line_ty_h(d0, d1, s, h, loc, help, out)); }
}
//@known construct_def_table
//@fn recognise_definition
    ensures ret == (begins(s@, "def "@) || begins(s@, "def-ty "@))
//@endfn
//@fn definition_head
    ensures head_of(s@, ret@)
//@endfn
//@fn process_impl
    requires old(defs).impls.tidy()
    ensures final(defs).impls.tidy(), line_def(&*old(defs), &*final(defs), s@, loc, ret)
//@endfn
//@fn process_ty
    requires old(defs).impls.tidy()
    ensures final(defs).impls.tidy(), line_ty(&*old(defs), &*final(defs), s@, loc, help, ret)
//@endfn
//@fn process_definition
    requires old(defs).impls.tidy()
    ensures final(defs).impls.tidy(), line(&*old(defs), &*final(defs), def@, loc, help, ret),
        ret is Err ==> unchanged(&*old(defs), &*final(defs))
//@tail
    proof { if __vret is Err { lem_err(&*old(defs), defs, def@, loc, help, __vret); } }
//@endfn
// the outline of a file: what it lists as types and as ops
pub struct File { pub types: Vec<(String, Item)>, pub impls: Vec<(String, Item)> }
//@src ogma/src/lang/syntax/parse/file.rs
//@item Item
//@src ogma/src/lang/defs.rs
pub uninterp spec fn p_file(s: Seq<char>, loc: Location) -> Option<File>;
#[verifier::external_body]
pub fn parse_file(s: &str, loc: Location) -> (r: Result<File>) ensures r is Ok <==> p_file(s@, loc) is Some, r is Ok ==> r->Ok_0 == p_file(s@, loc)->Some_0 { unimplemented!() }
/// types first: ops may be about them
pub open spec fn listed(f: File) -> Seq<(String, Item)> { f.types@ + f.impls@ }
#[verifier::external_body]
pub fn v_chain(a: &mut Vec<(String, Item)>, b: &mut Vec<(String, Item)>) ensures final(a)@ == old(a)@ + old(b)@ { unimplemented!() }
/// the item was defined
pub open spec fn did(d0: Definitions, d1: Definitions, x: Item, p: PathS) -> bool { exists|out: Result<(Value, Option<&str>)>| out is Ok && #[trigger] line(&d0, &d1, x.code@, Location::File(arc_path(p), x.line), x.doc, out) }
/// the first n items were defined, in order
pub open spec fn steps(st: Seq<Definitions>, all: Seq<(String, Item)>, p: PathS, n: int) -> bool { n <= all.len() && st.len() == n + 1 && forall|i: int| 0 <= i < n ==> #[trigger] did(st[i], st[i + 1], all[i].1, p) }
/// what reading definitions from a file does: all of them, or those before one which fails
pub open spec fn loaded(d0: Definitions, d1: Definitions, s: Seq<char>, p: PathS, out: Result<usize>) -> bool {
    match p_file(s, Location::File(arc_path(p), 0)) {
        None => out is Err && d1 == d0,
        Some(f) => exists|st: Seq<Definitions>, n: int| #[trigger] steps(st, listed(f), p, n) && st[0] == d0 && (match out { Ok(k) => k == n && n == listed(f).len() && d1 == st.last(), Err(_) => n < listed(f).len() && unchanged(&st.last(), &d1) }),
    }
}
impl Definitions {
//@fn Definitions::clear
    requires old(self).impls.tidy()
    ensures final(self).impls.tidy(), final(self).impls.cleared(&old(self).impls, only_files), final(self).types.cleared(&old(self).types, only_files)
//@endfn
//@fn Definitions::impls
    ensures *ret == self.impls
//@endfn
//@fn Definitions::types
    ensures *ret == self.types
//@endfn
//@fn Definitions::add_from_str
//@sig #[verifier::loop_isolation(false)] pub fn add_from_str(&mut self, s: &str, file: &PathS) -> (ret: Result<usize>)
    requires old(self).impls.tidy()
    ensures final(self).impls.tidy(), loaded(*old(self), *final(self), s@, *file, ret)
//@head
    let ghost mut __st: Seq<Definitions> = seq![*self];
    let ghost __p = file;
    let ghost __all = listed(p_file(s@, Location::File(arc_path(*__p), 0))->Some_0);
    proof { assert(unchanged(self, self)); assert(steps(__st, __all, *__p, 0)); }
//@loop 0
        invariant
            self.impls.tidy(), __n == __all.len(), __vs@ == __all.skip(__k as int), __k <= __n, count == __k, file == arc_path(*__p), __st[0] == *old(self), __st.last() == *self,
            p_file(s@, Location::File(arc_path(*__p), 0)) is Some, __all == listed(p_file(s@, Location::File(arc_path(*__p), 0))->Some_0), steps(__st, __all, *__p, __k as int),
        decreases __n - __k,
//@loophead 0
        let ghost __s0 = __st;
        let ghost __i = __k as int;
        assert(__vs@[0] == __all[__i]);
        assert(__vs@.remove(0) =~= __all.skip(__i + 1));
//@looptail 0
        proof {
            __st = __s0.push(*self);
            assert(did(__s0.last(), *self, __all[__i].1, *__p));
            assert forall|i: int| 0 <= i < __k implies #[trigger] did(__st[i], __st[i + 1], __all[i].1, *__p) by { if i < __i { assert(__st[i] == __s0[i] && __st[i + 1] == __s0[i + 1]); assert(did(__s0[i], __s0[i + 1], __all[i].1, *__p)); } }
            assert(steps(__st, __all, *__p, __k as int));
        }
//@endfn
}
