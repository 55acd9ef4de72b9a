//@rule arith_add
std::ops::Add::add
//@=>
Arith::Add
//@endrule
//@rule arith_sub
std::ops::Sub::sub
//@=>
Arith::Sub
//@endrule
//@rule arith_mul
std::ops::Mul::mul
//@=>
Arith::Mul
//@endrule
//@rule arith_div
std::ops::Div::div
//@=>
Arith::Div
//@endrule
//@rule near2
($i_x - 2.0).abs() < 1e-10
//@=>
v_near($i_x, 2)
//@endrule
//@rule near3
($i_x - 3.0).abs() < 1e-10
//@=>
v_near($i_x, 3)
//@endrule
//@rule dbg stmt
debug_assert!($s_a);
//@=>
;
//@endrule
//@rule dbg_eq stmt
debug_assert_eq!($s_a);
//@=>
;
//@endrule
//@rule dbg_if stmt
if cfg!(debug_assertions) { $s_b }
//@=>
;
//@endrule
//@rule dbg_aeq stmt
assert_eq!(returned_ty, $s_b);
//@=>
;
//@endrule
//@rule dbg_ty stmt
self.assert_resolved_type($e);
//@=>
;
//@endrule
//@rule arc_vals type
Arc<[Value]>
//@=>
ArcVals
//@endrule
//@rule arc_ty stmt
let arc: &mut Arc<_> = $e;
//@=>
let arc: &mut ArcVals = $e;
//@endrule
//@rule arc_weak
Arc::weak_count($a)
//@=>
v_weak($a)
//@endrule
//@rule arc_strong
Arc::strong_count($a)
//@=>
v_strong($a)
//@endrule
//@rule arc_mut
Arc::get_mut($a).expect($m)
//@=>
v_arc_mut($a)
//@endrule
//@rule arc_new
$b_a.as_ref().iter().cloned().collect()
//@=>
v_arc_new($b_a)
//@endrule
//@rule slot_get
env.0.get($i).expect($m)
//@=>
v_slot(&env.0, $i)
//@endrule
//@rule slot_put
*$b_e.get_mut($i).expect($m) = $v
//@=>
v_put($b_e, $i, $v)
//@endrule
//@rule for_steps
for $p_x in &self.steps { $s_body }
//@=>
{ let __vs = &self.steps; let mut __k: usize = 0; while __k < __vs.len() { let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule for_ref
for $p_x in &$i_v { $s_body }
//@=>
{ let __vs = $i_v; let mut __k: usize = 0; while __k < __vs.len() { let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule for_own
for $p_x in $i_v { $s_body }
//@=>
{ let __vs = $i_v; let mut __k: usize = 0; while __k < __vs.len() { let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule and_then
$r.and_then(|$p_e| $x)
//@=>
match $r { Ok($p_e) => $x, Err(__e) => Err(__e) }
//@endrule
//@rule data_new0
OgmaData::new($t, None, $d)
//@=>
v_data($t, 0, $d)
//@endrule
//@rule data_new
OgmaData::new($t, $i, $d)
//@=>
v_data($t, $i, $d)
//@endrule
//@rule vec_cap
Vec::with_capacity($n)
//@=>
Vec::new()
//@endrule
//@rule str_eq
$a.str() == $b
//@=>
v_streq($a.str(), $b)
//@endrule
//@rule lit_str
$a.extract_literal::<Str>()
//@=>
$a.extract_literal()
//@endrule
//@rule find_pos
$x.iter().enumerate().find(|(_, $i_f)| $c).ok_or_else(|| $e)
//@=>
{ let __vs = $x; let mut __r: Option<usize> = None; let mut __k: usize = 0; while __k < __vs.len() { let $i_f = &__vs[__k]; if $c { __r = Some(__k); break; } __k += 1; } match __r { Some(__i) => Ok((__i, &__vs[__i])), None => Err($e) } }
//@endrule
//@rule help_msg stmt
err.help_msg = $e;
//@=>
;
//@endrule
//@rule aggfn
aggfn($a, $b)
//@=>
aggfn.call($a, $b)
//@endrule
//@rule for_tail
for $p_x in &$i_v[1..] { $s_body }
//@=>
{ let __vs = $i_v; let mut __k: usize = 1; while __k < __vs.len() { let $p_x = &__vs[__k]; $s_body __k += 1; } }
//@endrule
//@rule vidx
$a.variant_idx().expect($m)
//@=>
v_vidx(&$a)
//@endrule
//@rule o_cmp
$b_a.cmp(&$b_b)
//@=>
v_cmp(&$b_a, &$b_b)
//@endrule
//@rule o_eq
$b_a.eq(&$b_b)
//@=>
v_same(&$b_a, &$b_b)
//@endrule
//@rule max_f
std::cmp::max($a, $b)
//@=>
v_max($a, $b)
//@endrule
//@rule min_f
std::cmp::min($a, $b)
//@=>
v_min($a, $b)
//@endrule
//@rule push_str stmt
$b_a.to_mut().push_str(&$b_b);
//@=>
v_push_str(&mut $b_a, &$b_b);
//@endrule
//@rule cast_b
bool::try_from($v)
//@=>
<bool as Cast>::cast($v)
//@endrule
//@rule cast_n
Number::try_from($v)
//@=>
<Number as Cast>::cast($v)
//@endrule
//@rule then_cast_n
$r.and_then(Number::try_from)
//@=>
match $r { Ok(__v) => <Number as Cast>::cast(__v), Err(__e) => Err(__e) }
//@endrule
//@rule r_map
$r.map(|$p_e| $x)
//@=>
match $r { Ok($p_e) => Ok($x), Err(__e) => Err(__e) }
//@endrule
//@rule num_f
f($a, $b).into()
//@=>
v_num(f.call($a, $b))
//@endrule
//@rule num_from
Number::from($a)
//@=>
v_num($a)
//@endrule
//@rule into_v
$a.into()
//@=>
$a.into_v()
//@endrule
//@rule f_call
(self.f)($a, $b)
//@=>
v_call(&self.f, $a, $b)
//@endrule
//@rule or_input
$b_a.as_ref().unwrap_or(&$i_i).clone()
//@=>
v_or($b_a, &$i_i)
//@endrule
//@rule resolve
$b_a.resolve(|| $v, $c)
//@=>
$b_a.resolve($v, $c)
//@endrule
//@rule take_input
input()
//@=>
input
//@endrule
//@rule res_map0
$r.map(|$i_x| $i_y.0)
//@=>
match $r { Ok($i_x) => Ok($i_y.0), Err(__e) => Err(__e) }
//@endrule
#[verifier::external_body]
pub struct Error { p: u8 }
use std::sync::Arc;
pub type Result<T> = core::result::Result<T, Error>;
pub enum Value { Nil, Bool(bool), Num(Number), Str(Str), Tab(Table), TabRow(TableRow), Ogma(OgmaData) }
impl Value { #[verifier::external_body] pub fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() }
    // only compared in debug assertions, whose holding is the type checker's business
    #[verifier::external_body] pub fn ty(&self) -> (r: Type) { unimplemented!() } }
#[verifier::external_body]
pub struct Table { p: u8 }
#[verifier::external_body]
pub struct TableRow { p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Number { p: u8 }
pub enum Type { Nil, Bool, Num, Str, TabRow, Tab, Def(Arc<TypeDef>) }
impl Type { #[verifier::external_body] pub fn clone(&self) -> (r: Type) ensures r == *self { unimplemented!() } }
pub use Type as Ty;
#[verifier::external_body]
pub struct TypeDef { p: u8 }
impl TypeDef {
    pub uninterp spec fn s_structure(&self) -> TypeVariant;
    #[verifier::external_body] pub fn structure(&self) -> (r: &TypeVariant) ensures *r == self.s_structure() { unimplemented!() }
}
pub enum TypeVariant { Product(Vec<Field>), Sum(Vec<Variant>) }
pub mod types { pub use super::TypeVariant; }
#[verifier::external_body]
pub struct Variant { p: u8 }
pub struct Field { pub name: Tag, pub ty: Type }
impl Field {
    pub fn name(&self) -> (r: &Tag) ensures *r == self.name { &self.name }
    pub fn ty(&self) -> (r: &Type) ensures *r == self.ty { &self.ty }
}
#[verifier::external_body]
pub struct Tag { p: u8 }
impl Tag {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub struct Str { p: u8 }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn v_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl Error {
    #[verifier::external_body] pub fn wrong_op_input_type(t: &Type, g: &Tag) -> (r: Error) { unimplemented!() }
    #[verifier::external_body] pub fn field_not_found(g: &Tag, t: &TypeDef) -> (r: Error) { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { p: u8 }
/// the data of a user type or tuple
pub struct OgmaDataInner { pub ty: Arc<TypeDef>, pub variant_idx: usize, pub data: Vec<Value> }
pub struct OgmaData(pub Box<OgmaDataInner>);
impl OgmaData {
    pub fn data(&self) -> (r: &Vec<Value>) ensures *r == self.0.data { &self.0.data }
    // gives the data itself when nobody else holds it
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: Option<&mut OgmaDataInner>) ensures r is Some ==> *r->Some_0 == *old(self).0, r is None ==> *final(self) == *old(self) { unimplemented!() }
}
pub fn v_data(ty: Arc<TypeDef>, variant_idx: usize, data: Vec<Value>) -> (r: OgmaData) ensures r.0.ty == ty, r.0.variant_idx == variant_idx, r.0.data@ == data@ { OgmaData(Box::new(OgmaDataInner { ty, variant_idx, data })) }
// a value as a plain Rust value, and back
// assume: types.rs's conversions (a macro, one arm each) take out and put in exactly what the variant holds
pub trait Cast: Sized {
    spec fn of(v: Value) -> Option<Self>;
    spec fn val(self) -> Value;
    fn cast(v: Value) -> (r: Result<Self>) ensures r is Ok <==> Self::of(v) is Some, r is Ok ==> Self::of(v) == Some(r->Ok_0), r is Ok ==> v == r->Ok_0.val();
    fn into_v(self) -> (r: Value) ensures r == self.val();
}
macro_rules! cast { ($t:ty, $v:ident) => { verus!{
impl Cast for $t {
    open spec fn of(v: Value) -> Option<$t> { match v { Value::$v(b) => Some(b), _ => None } }
    open spec fn val(self) -> Value { Value::$v(self) }
    fn cast(v: Value) -> (r: Result<$t>) { match v { Value::$v(b) => Ok(b), _ => Err(v_err()) } }
    fn into_v(self) -> (r: Value) { Value::$v(self) }
}
} } }
cast!(bool, Bool);
cast!(Number, Num);
cast!(Str, Str);
cast!(Table, Tab);
cast!(TableRow, TabRow);
cast!(OgmaData, Ogma);
impl Cast for Value {
    open spec fn of(v: Value) -> Option<Value> { Some(v) }
    open spec fn val(self) -> Value { self }
    fn cast(v: Value) -> (r: Result<Value>) { Ok(v) }
    fn into_v(self) -> (r: Value) { self }
}
#[verifier::external_body]
pub fn v_err() -> (r: Error) { unimplemented!() }
pub open spec fn truth(v: Value) -> Option<bool> { <bool as Cast>::of(v) }
pub open spec fn parts(v: Value) -> Option<OgmaData> { <OgmaData as Cast>::of(v) }
impl Value { pub fn try_into<T: Cast>(self) -> (r: Result<T>) ensures r is Ok <==> T::of(self) is Some, r is Ok ==> T::of(self) == Some(r->Ok_0), r is Ok ==> self == r->Ok_0.val() { T::cast(self) } }
// --- the shared slice of an environment ---
#[verifier::external_body]
pub struct ArcVals { p: u8 }
impl ArcVals { pub uninterp spec fn view(&self) -> Seq<Value>; pub uninterp spec fn sole(&self) -> bool; }
// assume: no Weak pointer to an environment exists (none is made anywhere); strong_count() == 1 means the owner is alone, as std documents
#[verifier::external_body]
pub fn v_weak(a: &ArcVals) -> (r: usize) ensures r == 0 { unimplemented!() }
#[verifier::external_body]
pub fn v_strong(a: &ArcVals) -> (r: usize) ensures r == 1 ==> a.sole() { unimplemented!() }
#[verifier::external_body]
pub fn v_arc_new(a: &ArcVals) -> (r: ArcVals) ensures r@ == a@, r.sole() { unimplemented!() }
// panics unless this is the only owner: a shared environment is never written
#[verifier::external_body]
pub fn v_arc_mut<'a>(a: &'a mut ArcVals) -> (r: &'a mut Vec<Value>)
    requires old(a).sole()
    ensures r@ == old(a)@, final(a)@ == final(r)@
{ unimplemented!() }
#[verifier::external_body]
pub fn v_slot<'a>(a: &'a ArcVals, i: usize) -> (r: &'a Value) requires i < a@.len() ensures *r == a@[i as int] { unimplemented!() }
pub fn v_put(v: &mut Vec<Value>, i: usize, x: Value)
    requires i < old(v)@.len()
    ensures final(v)@ == old(v)@.update(i as int, x)
{ v[i] = x; }
pub struct Environment(pub ArcVals);
pub struct Variable { pub tag: Tag, pub ty: Type, pub env_idx: usize }
//@src ogma/src/eng/var.rs
impl Environment {
    pub open spec fn view(&self) -> Seq<Value> { self.0@ }
    #[verifier::external_body] pub fn clone(&self) -> (r: Environment) ensures r@ == self@ { unimplemented!() }
//@fn Environment::make_mut
//@sig fn make_mut<'a>(&'a mut self) -> (ret: &'a mut Vec<Value>)
    ensures ret@ == old(self)@, final(self)@ == final(ret)@
//@endfn
}
/// the variables after binding one: its own place changes and no other; one without a place is not bound
pub open spec fn bind(e: Seq<Value>, v: Variable, x: Value) -> Seq<Value> { if v.env_idx == usize::MAX { e } else { e.update(v.env_idx as int, x) } }
/// the variable has a place in the environment, or needs none
pub open spec fn placed(v: Variable, e: Seq<Value>) -> bool { v.env_idx == usize::MAX || v.env_idx < e.len() }
impl Variable {
    #[verifier::external_body] pub fn clone(&self) -> (r: Variable) ensures r == *self { unimplemented!() }
//@fn Variable::new
    ensures ret == (Variable { tag, ty, env_idx })
//@endfn
//@fn Variable::idx
    ensures ret == self.env_idx
//@endfn
//@fn Variable::noop
    ensures ret.env_idx == usize::MAX, ret.tag == tag, ret.ty == ty
//@endfn
//@fn Variable::is_noop
    ensures ret == (self.env_idx == usize::MAX)
//@endfn
//@fn Variable::fetch
    requires self.env_idx < env@.len()
    ensures *ret == env@[self.env_idx as int]
//@endfn
//@fn Variable::set_data
    requires placed(*self, old(env)@)
    ensures final(env)@ == bind(old(env)@, *self, val)
//@endfn
}
pub struct SeedVars(pub Vec<(Str, Variable)>);
/// every variable sits at its own index
pub open spec fn seeded(s: Seq<(Str, Variable)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.env_idx == i }
impl SeedVars {
//@fn SeedVars::add
    requires seeded(old(self).0@)
    ensures seeded(final(self).0@), final(self).0@ == old(self).0@.push((name, ret)), ret.env_idx == old(self).0@.len(), ret.ty == ty, ret.tag == tag
//@endfn
}
// --- evaluation ---
#[verifier::external_body]
pub struct Func { p: u8 }
pub struct Step { pub out_ty: Type, pub f: Func }
pub struct Context<'a> { pub env: Environment, pub root: &'a Path, pub wd: &'a Path }
pub type StepR = Result<(Value, Environment)>;
pub type Out = Option<(Value, Seq<Value>)>;
pub open spec fn out(r: Result<(Value, Environment)>) -> Out { match r { Ok((v, e)) => Some((v, e@)), Err(_) => None } }
pub open spec fn val(o: Out) -> Option<Value> { match o { Some((v, _)) => Some(v), None => None } }
pub open spec fn res(r: Result<Value>) -> Option<Value> { match r { Ok(v) => Some(v), Err(_) => None } }
/// where an evaluation takes place
pub struct At { pub root: Path, pub wd: Path }
pub open spec fn at(c: Context) -> At { At { root: *c.root, wd: *c.wd } }
/// invoking a step's function on a value and variables may come out so
// assume: a step's function keeps the number of variables (proved here for definitions and let)
pub uninterp spec fn runs(f: Func, v: Value, e: Seq<Value>, a: At, r: Out) -> bool;
#[verifier::external_body]
pub fn v_call(f: &Func, v: Value, cx: Context) -> (r: Result<(Value, Environment)>)
    ensures runs(*f, v, cx.env@, at(cx), out(r)), r is Ok ==> r->Ok_0.1@.len() == cx.env@.len()
{ unimplemented!() }
//@src ogma/src/eng/eval.rs
impl<'a> Context<'a> {
//@fn Context::done
//@sig pub fn done<V: Cast>(self, value: V) -> (ret: Result<(Value, Environment)>)
    ensures ret is Ok, ret->Ok_0.0 == value.val(), ret->Ok_0.1@ == self.env@
//@endfn
//@fn Context::done_o
//@sig pub fn done_o<T>(self, value: T) -> (ret: Result<(T, Environment)>)
    ensures ret is Ok, ret->Ok_0.0 == value, ret->Ok_0.1@ == self.env@
//@endfn
    #[verifier::external_body] pub fn clone(&self) -> (r: Context<'a>) ensures r.env@ == self.env@, r.root == self.root, r.wd == self.wd { unimplemented!() }
}
//@src ogma/src/eng/step.rs
impl Step {
//@fn Step::invoke
    ensures runs(self.f, input, cx.env@, at(cx), out(ret)), ret is Ok ==> ret->Ok_0.1@.len() == cx.env@.len()
//@endfn
}
pub struct Stack { pub in_ty: Type, pub out_ty: Type, pub steps: Vec<Step> }
/// running the steps one after another, each on what the one before gave, stopping at the first that fails
pub open spec fn chain(s: Seq<Step>, v: Value, e: Seq<Value>, a: At, r: Out) -> bool { exists|ms: Seq<Out>| #[trigger] trace(ms, s, v, e, a, r) }
pub open spec fn trace(ms: Seq<Out>, s: Seq<Step>, v: Value, e: Seq<Value>, a: At, r: Out) -> bool {
    &&& ms.len() == s.len() + 1 && ms[0] == Some((v, e)) && ms.last() == r
    &&& forall|k: int| 0 <= k < s.len() ==> after(#[trigger] s[k], ms[k], a, ms[k + 1])
}
pub open spec fn after(s: Step, m: Out, a: At, r: Out) -> bool { match m { None => r is None, Some((v1, e1)) => runs(s.f, v1, e1, a, r) } }
pub proof fn chain_step(s: Seq<Step>, k: int, v: Value, e: Seq<Value>, a: At, m: Out, r: Out)
    requires 0 <= k < s.len(), chain(s.take(k), v, e, a, m), after(s[k], m, a, r)
    ensures chain(s.take(k + 1), v, e, a, r)
{
    let ms = choose|ms: Seq<Out>| #[trigger] trace(ms, s.take(k), v, e, a, m);
    let t = s.take(k + 1);
    assert forall|j: int| 0 <= j < t.len() implies after(#[trigger] t[j], ms.push(r)[j], a, ms.push(r)[j + 1]) by { if j < k { assert(t[j] == s.take(k)[j]); } }
    assert(trace(ms.push(r), t, v, e, a, r));
}
/// a failed run stays failed whatever steps follow
pub proof fn chain_failed(s: Seq<Step>, k: int, v: Value, e: Seq<Value>, a: At)
    requires 0 <= k <= s.len(), chain(s.take(k), v, e, a, None)
    ensures chain(s, v, e, a, None)
    decreases s.len() - k
{
    if k < s.len() { chain_step(s, k, v, e, a, None, None); chain_failed(s, k + 1, v, e, a); } else { assert(s.take(k) =~= s); }
}
pub proof fn chain_begun(s: Seq<Step>, v: Value, e: Seq<Value>, a: At)
    ensures chain(s.take(0), v, e, a, Some((v, e)))
{ assert(trace(seq![Some((v, e))], s.take(0), v, e, a, Some((v, e)))); }
//@src ogma/src/eng/eval.rs
impl Stack {
//@fn Stack::eval
    ensures chain(self.steps@, value, cx.env@, at(cx), out(ret)), ret is Ok ==> ret->Ok_0.1@.len() == cx.env@.len()
//@head
    let ghost a0 = at(cx);
    let ghost v0 = value;
    let ghost e0 = cx.env@;
    let ghost s0 = self.steps@;
    proof {
        chain_begun(s0, v0, e0, a0);
        assert(s0.take(s0.len() as int) =~= s0);
        assert forall|k: int, v1: Value, e1: Seq<Value>| 0 <= k < s0.len() && #[trigger] chain(s0.take(k), v0, e0, a0, Some((v1, e1))) && #[trigger] runs(s0[k].f, v1, e1, a0, None) implies chain(s0, v0, e0, a0, None) by {
            chain_step(s0, k, v0, e0, a0, Some((v1, e1)), None);
            chain_failed(s0, k + 1, v0, e0, a0);
        }
    }
//@loop 0
    invariant
        v0 == value, e0 == cx.env@, a0 == at(cx), s0 == self.steps@, a0 == (At { root: *root, wd: *wd }), 0 <= __k <= s0.len(), __vs@ == s0, env@.len() == e0.len(),
        chain(s0.take(__k as int), v0, e0, a0, Some((input, env@))),
        forall|k: int, v1: Value, e1: Seq<Value>| 0 <= k < s0.len() && #[trigger] chain(s0.take(k), v0, e0, a0, Some((v1, e1))) && #[trigger] runs(s0[k].f, v1, e1, a0, None) ==> chain(s0, v0, e0, a0, None),
    decreases s0.len() - __k
//@loophead 0
    let ghost m0 = Some((input, env@));
//@looptail 0
    proof { chain_step(s0, __k - 1, v0, e0, a0, m0, Some((input, env@))); }
//@endfn
}
// --- arguments ---
pub enum Hold { Lit(Value), Var(Variable), Expr(Stack) }
pub struct Argument { pub tag: Tag, pub in_ty: Type, pub out_ty: Type, pub hold: Box<Hold> }
/// what an argument may give: itself, its variable's value, or the outcome of its expression on the input with the variables as they are
pub open spec fn gives(a: Argument, v: Value, e: Seq<Value>, p: At, r: Option<Value>) -> bool {
    match *a.hold {
        Hold::Lit(x) => r == Some(x),
        Hold::Var(x) => r == Some(e[x.env_idx as int]),
        Hold::Expr(s) => exists|o: Out| #[trigger] chain(s.steps@, v, e, p, o) && val(o) == r,
    }
}
/// the argument's variable, if it is one, has a place
pub open spec fn arg_ok(a: Argument, e: Seq<Value>) -> bool { match *a.hold { Hold::Var(x) => x.env_idx < e.len(), _ => true } }
impl Argument {
//@src ogma/src/eng/arg.rs
//@fn Argument::resolve
//@sig fn resolve(&self, input: Value, cx: &Context) -> (ret: Result<Value>)
    requires arg_ok(*self, cx.env@)
    ensures gives(*self, input, cx.env@, at(*cx), res(ret))
//@endfn
}
/// binding arguments to variables in order, on one input: ek is the variables after the first k
pub open spec fn binds(es: Seq<Seq<Value>>, xs: Seq<Option<Value>>, ps: Seq<(Variable, Argument)>, v: Value, p: At, k: int) -> bool {
    &&& es.len() == k + 1 && xs.len() == k
    &&& forall|j: int| 0 <= j < k ==> (#[trigger] xs[j]) is Some && gives(ps[j].1, v, es[j], p, xs[j]) && es[j + 1] == bind(es[j], ps[j].0, xs[j]->Some_0)
}
pub open spec fn bound(ps: Seq<(Variable, Argument)>, v: Value, e0: Seq<Value>, p: At, k: int, e: Seq<Value>) -> bool {
    exists|es: Seq<Seq<Value>>, xs: Seq<Option<Value>>| #[trigger] binds(es, xs, ps, v, p, k) && es[0] == e0 && es.last() == e
}
pub proof fn bound_more(ps: Seq<(Variable, Argument)>, v: Value, e0: Seq<Value>, p: At, k: int, e: Seq<Value>, x: Value)
    requires 0 <= k < ps.len(), bound(ps, v, e0, p, k, e), gives(ps[k].1, v, e, p, Some(x))
    ensures bound(ps, v, e0, p, k + 1, bind(e, ps[k].0, x))
{
    let (es, xs) = choose|es: Seq<Seq<Value>>, xs: Seq<Option<Value>>| #[trigger] binds(es, xs, ps, v, p, k) && es[0] == e0 && es.last() == e;
    let e2 = es.push(bind(e, ps[k].0, x));
    let x2 = xs.push(Some(x));
    assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] x2[j]) is Some && gives(ps[j].1, v, e2[j], p, x2[j]) && e2[j + 1] == bind(e2[j], ps[j].0, x2[j]->Some_0) by { if j < k { assert(x2[j] == xs[j]); } }
    assert(binds(e2, x2, ps, v, p, k + 1));
}
pub proof fn bound_none(ps: Seq<(Variable, Argument)>, v: Value, e0: Seq<Value>, p: At)
    ensures bound(ps, v, e0, p, 0, e0)
{ assert(binds(seq![e0], Seq::empty(), ps, v, p, 0)); }
/// every variable has a place and every argument can be read
pub open spec fn ready(ps: Seq<(Variable, Argument)>, n: nat) -> bool {
    forall|j: int| 0 <= j < ps.len() ==> ((#[trigger] ps[j]).0.env_idx == usize::MAX || ps[j].0.env_idx < n) && match *ps[j].1.hold { Hold::Var(x) => x.env_idx < n, _ => true }
}
/// a definition's step: each parameter is bound to its argument, evaluated on the input, in order; then the body runs on the input
//@src ogma/src/eng/step.rs
//@closure Step::def new:0 as=def_step
//@params input cx
//@sig fn def_step(input: Value, cx_in: Context, params: &Vec<(Variable, Argument)>, subexpr: &Stack) -> (ret: Result<(Value, Environment)>)
    requires ready(params@, cx_in.env@.len())
    ensures
        ({
            ||| exists|e: Seq<Value>| #[trigger] bound(params@, input, cx_in.env@, at(cx_in), params@.len() as int, e) && chain(subexpr.steps@, input, e, at(cx_in), out(ret))
            ||| ret is Err && exists|k: int, e: Seq<Value>| 0 <= k < params@.len() && #[trigger] bound(params@, input, cx_in.env@, at(cx_in), k, e) && gives(params@[k].1, input, e, at(cx_in), None)
        }),
        ret is Ok ==> ret->Ok_0.1@.len() == cx_in.env@.len(),
//@head
    let mut cx = cx_in;
    let ghost p0 = at(cx_in);
    let ghost e0 = cx_in.env@;
    proof { bound_none(params@, input, e0, p0); }
//@loop 0
    invariant
        __vs == params, p0 == at(cx_in), e0 == cx_in.env@, at(cx) == p0, cx.env@.len() == e0.len(), ready(params@, e0.len()), 0 <= __k <= params@.len(),
        bound(params@, input, e0, p0, __k as int, cx.env@),
    decreases params@.len() - __k
//@loophead 0
    let ghost ek = cx.env@;
    proof { assert(ready(params@, e0.len())); assert(params@[__k as int].1 == __vs@[__k as int].1); }
    proof { assert forall|x: Value| gives(params@[__k as int].1, input, ek, p0, Some(x)) implies bound(params@, input, e0, p0, __k + 1, #[trigger] bind(ek, params@[__k as int].0, x)) by { bound_more(params@, input, e0, p0, __k as int, ek, x); } }
//@endfn
/// injected code: its own variables are bound to the block's arguments, evaluated with the caller's variables, then the code runs with its own
pub struct Eval { pub stack: Stack, pub env: Environment }
pub struct CodeInjector<T> { pub args: Vec<(Argument, Variable, Option<Value>)>, pub data: T }
pub open spec fn fed(x: Option<Value>, i: Value) -> Value { match x { Some(v) => v, None => i } }
pub fn v_or(x: &Option<Value>, i: &Value) -> (r: Value) ensures r == fed(*x, *i) { match x { Some(v) => v.clone(), None => i.clone() } }
pub open spec fn injects(es: Seq<Seq<Value>>, xs: Seq<Option<Value>>, ps: Seq<(Argument, Variable, Option<Value>)>, v: Value, outer: Seq<Value>, p: At, k: int) -> bool {
    &&& es.len() == k + 1 && xs.len() == k
    &&& forall|j: int| 0 <= j < k ==> (#[trigger] xs[j]) is Some && gives(ps[j].0, fed(ps[j].2, v), outer, p, xs[j]) && es[j + 1] == bind(es[j], ps[j].1, xs[j]->Some_0)
}
pub open spec fn injected(ps: Seq<(Argument, Variable, Option<Value>)>, v: Value, outer: Seq<Value>, p: At, e0: Seq<Value>, k: int, e: Seq<Value>) -> bool {
    exists|es: Seq<Seq<Value>>, xs: Seq<Option<Value>>| #[trigger] injects(es, xs, ps, v, outer, p, k) && es[0] == e0 && es.last() == e
}
pub proof fn injected_more(ps: Seq<(Argument, Variable, Option<Value>)>, v: Value, outer: Seq<Value>, p: At, e0: Seq<Value>, k: int, e: Seq<Value>, x: Value)
    requires 0 <= k < ps.len(), injected(ps, v, outer, p, e0, k, e), gives(ps[k].0, fed(ps[k].2, v), outer, p, Some(x))
    ensures injected(ps, v, outer, p, e0, k + 1, bind(e, ps[k].1, x))
{
    let (es, xs) = choose|es: Seq<Seq<Value>>, xs: Seq<Option<Value>>| #[trigger] injects(es, xs, ps, v, outer, p, k) && es[0] == e0 && es.last() == e;
    let e2 = es.push(bind(e, ps[k].1, x));
    let x2 = xs.push(Some(x));
    assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] x2[j]) is Some && gives(ps[j].0, fed(ps[j].2, v), outer, p, x2[j]) && e2[j + 1] == bind(e2[j], ps[j].1, x2[j]->Some_0) by { if j < k { assert(x2[j] == xs[j]); } }
    assert(injects(e2, x2, ps, v, outer, p, k + 1));
}
pub open spec fn inj_ready(ps: Seq<(Argument, Variable, Option<Value>)>, outer: nat, own: nat) -> bool {
    forall|j: int| 0 <= j < ps.len() ==> ((#[trigger] ps[j]).1.env_idx == usize::MAX || ps[j].1.env_idx < own) && match *ps[j].0.hold { Hold::Var(x) => x.env_idx < outer, _ => true }
}
pub open spec fn inj_out(c: CodeInjector<Eval>, v: Value, outer: Seq<Value>, own: Seq<Value>, p: At, r: Option<Value>) -> bool {
    ||| exists|e: Seq<Value>, o: Out| #[trigger] injected(c.args@, v, outer, p, own, c.args@.len() as int, e) && #[trigger] chain(c.data.stack.steps@, v, e, p, o) && r == val(o)
    ||| r is None && exists|k: int, e: Seq<Value>| 0 <= k < c.args@.len() && #[trigger] injected(c.args@, v, outer, p, own, k, e) && gives(c.args@[k].0, fed(c.args@[k].2, v), outer, p, None)
}
//@src ogma/src/eng/eval.rs
impl CodeInjector<Eval> {
//@fn CodeInjector::env
    ensures *ret == self.data.env
//@endfn
//@fn CodeInjector::eval
    requires inj_ready(self.args@, cx.env@.len(), self.data.env@.len())
    ensures inj_out(*self, input, cx.env@, self.data.env@, at(*cx), res(ret))
//@endfn
//@fn CodeInjector::eval_with_env
//@sig fn eval_with_env(&self, input: Value, cx: &Context, env_in: Environment) -> (ret: Result<Value>)
    requires inj_ready(self.args@, cx.env@.len(), env_in@.len())
    ensures inj_out(*self, input, cx.env@, env_in@, at(*cx), res(ret))
//@head
    let mut env = env_in;
    let ghost e0 = env_in@;
    let ghost p0 = at(*cx);
    let ghost out0 = cx.env@;
    let ghost ps = self.args@;
    proof { assert(injects(seq![e0], Seq::empty(), ps, input, out0, p0, 0)); assert(injected(ps, input, out0, p0, e0, 0, e0)); }
//@loop 0
    invariant
        __vs@ == ps, ps == self.args@, e0 == env_in@, p0 == at(*cx), out0 == cx.env@, inj_ready(ps, out0.len(), e0.len()), env@.len() == e0.len(), 0 <= __k <= ps.len(),
        injected(ps, input, out0, p0, e0, __k as int, env@),
    decreases ps.len() - __k
//@loophead 0
    let ghost ek = env@;
    proof { assert(ps[__k as int] == __vs@[__k as int]); }
    proof { assert forall|x: Value| gives(ps[__k as int].0, fed(ps[__k as int].2, input), out0, p0, Some(x)) implies injected(ps, input, out0, p0, e0, __k + 1, #[trigger] bind(ek, ps[__k as int].1, x)) by { injected_more(ps, input, out0, p0, e0, __k as int, ek, x); } }
//@endfn
}

// --- `\\`, if, let and Tuple ---
//@src ogma/src/lang/impls/intrinsics/pipeline.rs
/// the input command passes on what its argument gives
//@closure in_intrinsic eval:0 as=in_step
//@sig fn in_step(val: Value, cx: Context, arg: &Argument) -> (ret: Result<(Value, Environment)>)
    requires arg_ok(*arg, cx.env@)
    ensures
        gives(*arg, val, cx.env@, at(cx), vres(out(ret))),
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
//@endfn
pub open spec fn vres(o: Out) -> Option<Value> { val(o) }
pub struct Cond { pub pred: Argument, pub expr: Argument }
/// condition k is false for the input
pub open spec fn refused(c: Cond, v: Value, e: Seq<Value>, p: At) -> bool { exists|x: Value| #[trigger] gives(c.pred, v, e, p, Some(x)) && truth(x) == Some(false) }
pub open spec fn met(c: Cond, v: Value, e: Seq<Value>, p: At) -> bool { exists|x: Value| #[trigger] gives(c.pred, v, e, p, Some(x)) && truth(x) == Some(true) }
/// the condition itself fails or gives no truth value
pub open spec fn failed(c: Cond, v: Value, e: Seq<Value>, p: At) -> bool { gives(c.pred, v, e, p, None) || exists|x: Value| #[trigger] gives(c.pred, v, e, p, Some(x)) && truth(x) is None }
pub open spec fn all_refused(cs: Seq<Cond>, k: int, v: Value, e: Seq<Value>, p: At) -> bool { forall|j: int| 0 <= j < k ==> refused(#[trigger] cs[j], v, e, p) }
pub open spec fn if_out(cs: Seq<Cond>, els: Argument, v: Value, e: Seq<Value>, p: At, r: Option<Value>) -> bool {
    ||| all_refused(cs, cs.len() as int, v, e, p) && gives(els, v, e, p, r)
    ||| exists|k: int| 0 <= k < cs.len() && #[trigger] all_refused(cs, k, v, e, p) && (met(cs[k], v, e, p) && gives(cs[k].expr, v, e, p, r) || failed(cs[k], v, e, p) && r is None)
}
//@src ogma/src/lang/impls/intrinsics/logic.rs
/// if: the first condition that holds for the input picks the expression, evaluated on the input; else the last one
//@closure if_intrinsic eval:0 as=if_step
//@sig fn if_step(input: Value, cx: Context, args: &Vec<Cond>, else_: &Argument) -> (ret: Result<(Value, Environment)>)
    requires forall|j: int| 0 <= j < args@.len() ==> arg_ok((#[trigger] args@[j]).pred, cx.env@) && arg_ok(args@[j].expr, cx.env@), arg_ok(*else_, cx.env@)
    ensures
        if_out(args@, *else_, input, cx.env@, at(cx), vres(out(ret))),
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
//@loop 0
    invariant
        __vs == args, 0 <= __k <= args@.len(), all_refused(args@, __k as int, input, cx.env@, at(cx)), arg_ok(*else_, cx.env@),
        forall|j: int| 0 <= j < args@.len() ==> arg_ok((#[trigger] args@[j]).pred, cx.env@) && arg_ok(args@[j].expr, cx.env@),
    decreases args@.len() - __k
//@loophead 0
    proof { assert(args@[__k as int] == __vs@[__k as int]); assert(all_refused(args@, __k as int, input, cx.env@, at(cx))); }
//@endfn
pub type Binding = (Variable, Argument);
//@src ogma/src/lang/impls/intrinsics/pipeline.rs
//@fn let_intrinsic/bind_vars
//@sig fn bind_vars(bindings: &Vec<(Variable, Argument)>, value: &Value, cx: &mut Context) -> (ret: Result<()>)
    requires ready(bindings@, old(cx).env@.len())
    ensures
        at(*final(cx)) == at(*old(cx)), final(cx).env@.len() == old(cx).env@.len(),
        match ret {
            Ok(_) => bound(bindings@, *value, old(cx).env@, at(*old(cx)), bindings@.len() as int, final(cx).env@),
            Err(_) => exists|k: int, e: Seq<Value>| 0 <= k < bindings@.len() && #[trigger] bound(bindings@, *value, old(cx).env@, at(*old(cx)), k, e) && gives(bindings@[k].1, *value, e, at(*old(cx)), None),
        },
//@head
    let ghost p0 = at(*cx);
    let ghost e0 = cx.env@;
    let ghost ps = bindings@;
    proof { bound_none(ps, *value, e0, p0); }
//@loop 0
    invariant
        __vs@ == ps, ps == bindings@, at(*cx) == p0, cx.env@.len() == e0.len(), ready(ps, e0.len()), 0 <= __k <= ps.len(),
        bound(ps, *value, e0, p0, __k as int, cx.env@), p0 == at(*old(cx)), e0 == old(cx).env@,
    decreases ps.len() - __k
//@loophead 0
    let ghost ek = cx.env@;
    proof { assert(ps[__k as int] == __vs@[__k as int]); }
    proof { assert forall|x: Value| gives(ps[__k as int].1, *value, ek, p0, Some(x)) implies bound(ps, *value, e0, p0, __k + 1, #[trigger] bind(ek, ps[__k as int].0, x)) by { bound_more(ps, *value, e0, p0, __k as int, ek, x); } }
//@endfn
/// the variables after a let: each binding in order, then the trailing one, which takes the input
pub open spec fn let_env(e: Seq<Value>, t: Option<Variable>, v: Value) -> Seq<Value> { match t { Some(x) => bind(e, x, v), None => e } }
/// let passes its input on
//@closure let_intrinsic eval:0 as=let_step
//@params value cx
//@sig fn let_step(value: Value, cx_in: Context, bindings: &Vec<(Variable, Argument)>, trailing_binding: &Option<Variable>) -> (ret: Result<(Value, Environment)>)
    requires ready(bindings@, cx_in.env@.len()), *trailing_binding is Some ==> placed(trailing_binding->Some_0, cx_in.env@)
    ensures
        match ret {
            Ok((v, e)) => v == value && e@.len() == cx_in.env@.len() && exists|m: Seq<Value>| #[trigger] bound(bindings@, value, cx_in.env@, at(cx_in), bindings@.len() as int, m) && e@ == let_env(m, *trailing_binding, value),
            Err(_) => exists|k: int, e: Seq<Value>| 0 <= k < bindings@.len() && #[trigger] bound(bindings@, value, cx_in.env@, at(cx_in), k, e) && gives(bindings@[k].1, value, e, at(cx_in), None),
        },
//@head
    let mut cx = cx_in;
//@endfn
/// a tuple (or a user type's constructor) holds what each argument gives for the input, in order
pub open spec fn fields(xs: Seq<Value>, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At) -> bool { forall|j: int| 0 <= j < xs.len() ==> gives(ps[j], v, e, p, Some(#[trigger] xs[j])) }

pub open spec fn made_of(r: Result<(Value, Environment)>, t: TypeDef, i: usize, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At) -> bool {
    match r {
        Ok((x, e2)) => e2@ == e && parts(x) is Some && ({ let d = parts(x)->Some_0.0; *d.ty == t && d.variant_idx == i && d.data@.len() == ps.len() && fields(d.data@, ps, v, e, p) }),
        Err(_) => exists|j: int| 0 <= j < ps.len() && #[trigger] gives(ps[j], v, e, p, None),
    }
}
pub open spec fn args_ok(ps: Seq<Argument>, e: Seq<Value>) -> bool { forall|j: int| 0 <= j < ps.len() ==> arg_ok(#[trigger] ps[j], e) }
//@closure tuple_intrinsic eval:0 as=tuple_step
//@sig fn tuple_step(input: Value, cx: Context, v: &Vec<Argument>, ty: &Arc<TypeDef>) -> (ret: Result<(Value, Environment)>)
    requires args_ok(v@, cx.env@)
    ensures made_of(ret, **ty, 0, v@, input, cx.env@, at(cx))
//@head
    let ghost ps = v@;
//@loop 0
    invariant __vs@ == ps, ps == v@, args_ok(ps, cx.env@), 0 <= __k <= ps.len(), data@.len() == __k, fields(data@, ps, input, cx.env@, at(cx))
    decreases ps.len() - __k
//@loophead 0
    proof { assert(ps[__k as int] == __vs@[__k as int]); }
//@endfn
//@src ogma/src/lang/impls/mod.rs
//@closure typedef_init eval:0 as=init_step
//@sig fn init_step(input: Value, cx: Context, value_places: &Vec<Argument>, tydef: &Arc<TypeDef>, variant_idx: usize) -> (ret: Result<(Value, Environment)>)
    requires args_ok(value_places@, cx.env@)
    ensures made_of(ret, **tydef, variant_idx, value_places@, input, cx.env@, at(cx))
//@head
    let ghost ps = value_places@;
//@loop 0
    invariant __vs@ == ps, ps == value_places@, args_ok(ps, cx.env@), 0 <= __k <= ps.len(), values@.len() == __k, fields(values@, ps, input, cx.env@, at(cx))
    decreases ps.len() - __k
//@loophead 0
    proof { assert(ps[__k as int] == __vs@[__k as int]); }
//@endfn
//@src ogma/src/lang/impls/intrinsics/pipeline.rs
pub struct FieldAccessor(pub usize);
impl Argument {
    pub uninterp spec fn literal(&self) -> Option<Str>;
    #[verifier::external_body] pub fn extract_literal(&self) -> (r: Result<&Str>) ensures r is Ok <==> self.literal() is Some, r is Ok ==> self.literal() == Some(*r->Ok_0) { unimplemented!() }
}
/// field i is the (first) one of that name
pub open spec fn named(fs: Seq<Field>, i: int, n: Seq<char>) -> bool { 0 <= i < fs.len() && fs[i].name.text() == n && forall|j: int| 0 <= j < i ==> (#[trigger] fs[j]).name.text() != n }
pub open spec fn nameless(fs: Seq<Field>, n: Seq<char>) -> bool { forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).name.text() != n }
pub open spec fn fields_of(t: Type) -> Option<Seq<Field>> { match t { Type::Def(d) => match d.s_structure() { TypeVariant::Product(fs) => Some(fs@), _ => None }, _ => None } }
impl FieldAccessor {
//@fn FieldAccessor::construct
//@sig fn construct(ty: &Type, field_arg: &Argument, err_tag: &Tag) -> (ret: Result<(Self, Type)>)
    ensures match ret {
        Ok((a, t)) => fields_of(*ty) is Some && field_arg.literal() is Some && named(fields_of(*ty)->Some_0, a.0 as int, field_arg.literal()->Some_0@) && t == fields_of(*ty)->Some_0[a.0 as int].ty,
        Err(_) => fields_of(*ty) is None || field_arg.literal() is None || nameless(fields_of(*ty)->Some_0, field_arg.literal()->Some_0@),
    }
//@head
    let ghost fs = if fields_of(*ty) is Some { fields_of(*ty)->Some_0 } else { Seq::empty() };
    let ghost nm = if field_arg.literal() is Some { field_arg.literal()->Some_0@ } else { Seq::empty() };
//@loop 0
    invariant_except_break __r is None, forall|j: int| 0 <= j < __k ==> (#[trigger] fs[j]).name.text() != nm
    invariant __vs@ == fs, nm == field_name@, 0 <= __k <= fs.len()
    ensures match __r { Some(i) => named(fs, i as int, nm), None => nameless(fs, nm) }
    decreases fs.len() - __k
//@endfn
//@fn FieldAccessor::get
//@sig fn get(&self, val: Value) -> (ret: Result<Value>)
    requires parts(val) is Some ==> self.0 < parts(val)->Some_0.0.data@.len()
    ensures match ret { Ok(v) => parts(val) is Some && v == parts(val)->Some_0.0.data@[self.0 as int], Err(_) => parts(val) is None }
//@endfn
}
//@closure get_intrinsic eval:0 as=get_step
//@sig fn get_step(input: Value, cx: Context, facc: &FieldAccessor) -> (ret: Result<(Value, Environment)>)
    requires parts(input) is Some ==> facc.0 < parts(input)->Some_0.0.data@.len()
    ensures match ret { Ok((v, e)) => e@ == cx.env@ && parts(input) is Some && v == parts(input)->Some_0.0.data@[facc.0 as int], Err(_) => parts(input) is None }
//@endfn
/// the dot operator reads the field of what its left side gives
//@closure DotOperatorBlock::intrinsic eval:1 as=dot_step
//@sig fn dot_step(lhs_input: Value, cx: Context, input: &Argument, facc: &FieldAccessor) -> (ret: Result<(Value, Environment)>)
    requires arg_ok(*input, cx.env@), forall|x: Value| #[trigger] parts(x) is Some && gives(*input, lhs_input, cx.env@, at(cx), Some(x)) ==> facc.0 < parts(x)->Some_0.0.data@.len()
    ensures match ret {
        Ok((v, e)) => e@ == cx.env@ && exists|x: Value| #[trigger] gives(*input, lhs_input, cx.env@, at(cx), Some(x)) && parts(x) is Some && v == parts(x)->Some_0.0.data@[facc.0 as int],
        Err(_) => gives(*input, lhs_input, cx.env@, at(cx), None) || exists|x: Value| #[trigger] gives(*input, lhs_input, cx.env@, at(cx), Some(x)) && parts(x) is None,
    }
//@endfn

// --- variadic commands ---
/// how a variadic command joins two values, and whether that settles the result
pub trait Agg<T> {
    spec fn joins(&self, a: T, b: T, r: (T, bool)) -> bool;
    fn call(&self, a: T, b: T) -> (r: (T, bool)) ensures self.joins(a, b, r);
}
/// the first k arguments, evaluated on the input in order, each joined to the result so far; none of the joins but the last may have settled it
pub open spec fn folding<T: Cast, F: Agg<T>>(xs: Seq<T>, accs: Seq<(T, bool)>, f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At) -> bool {
    &&& accs.len() == xs.len() + 1 && xs.len() <= ps.len() && !accs[0].1
    &&& forall|j: int| 0 <= j < xs.len() ==> folded(#[trigger] xs[j], accs[j], accs[j + 1], f, ps[j], v, e, p)
}
pub open spec fn folded<T: Cast, F: Agg<T>>(x: T, m: (T, bool), n: (T, bool), f: F, a: Argument, v: Value, e: Seq<Value>, p: At) -> bool {
    !m.1 && gives(a, v, e, p, Some(x.val())) && f.joins(m.0, x, n)
}
/// an argument that fails, or gives another type
pub open spec fn spoils<T: Cast>(a: Argument, v: Value, e: Seq<Value>, p: At) -> bool { gives(a, v, e, p, None) || exists|x: Value| #[trigger] gives(a, v, e, p, Some(x)) && T::of(x) is None }
/// the first k arguments have been joined, giving this, and whether that settled the result
pub open spec fn prefix<T: Cast, F: Agg<T>>(init: T, f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, k: int, r: (T, bool)) -> bool {
    exists|xs: Seq<T>, accs: Seq<(T, bool)>| #[trigger] folding(xs, accs, f, ps, v, e, p) && accs[0].0 == init && xs.len() == k && accs.last() == r
}
pub open spec fn fold_out<T: Cast, F: Agg<T>>(init: T, f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, r: Option<T>) -> bool {
    match r {
        Some(t) => prefix(init, f, ps, v, e, p, ps.len() as int, (t, false)) || exists|k: int| 0 < k <= ps.len() && #[trigger] prefix(init, f, ps, v, e, p, k, (t, true)),
        None => exists|k: int, t: T| 0 <= k < ps.len() && #[trigger] prefix(init, f, ps, v, e, p, k, (t, false)) && spoils::<T>(ps[k], v, e, p),
    }
}
pub proof fn prefix_none<T: Cast, F: Agg<T>>(init: T, f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At)
    ensures prefix(init, f, ps, v, e, p, 0, (init, false))
{ assert(folding(Seq::<T>::empty(), seq![(init, false)], f, ps, v, e, p)); }
pub proof fn prefix_more<T: Cast, F: Agg<T>>(init: T, f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, k: int, m: T, x: T, n: (T, bool))
    requires 0 <= k < ps.len(), prefix(init, f, ps, v, e, p, k, (m, false)), folded(x, (m, false), n, f, ps[k], v, e, p)
    ensures prefix(init, f, ps, v, e, p, k + 1, n)
{
    let (xs, accs) = choose|xs: Seq<T>, accs: Seq<(T, bool)>| #[trigger] folding(xs, accs, f, ps, v, e, p) && accs[0].0 == init && xs.len() == k && accs.last() == (m, false);
    let x2 = xs.push(x);
    let a2 = accs.push(n);
    assert forall|j: int| 0 <= j < x2.len() implies folded(#[trigger] x2[j], a2[j], a2[j + 1], f, ps[j], v, e, p) by { if j < xs.len() { assert(x2[j] == xs[j]); } }
    assert(folding(x2, a2, f, ps, v, e, p));
}
pub open spec fn out_o<T>(r: Result<(T, Environment)>) -> Option<T> { match r { Ok((v, _)) => Some(v), Err(_) => None } }
//@src ogma/src/lang/impls/intrinsics/mod.rs
//@closure variadic_intrinsic_in_constrained eval_o:0 as=variadic_step
//@sig fn variadic_step<T: Cast, F: Agg<T>>(input: Value, cx: Context, args: &Vec<Argument>, aggfn: &F) -> (ret: Result<(T, Environment)>)
    requires args_ok(args@, cx.env@)
    ensures
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
        match T::of(input) { Some(t) => fold_out(t, *aggfn, args@, input, cx.env@, at(cx), out_o(ret)), None => ret is Err },
//@head
    let ghost ps = args@;
    let ghost e0 = cx.env@;
    let ghost p0 = at(cx);
    let ghost t0 = T::of(input)->Some_0;
    proof { prefix_none(t0, *aggfn, ps, input, e0, p0); }
//@loop 0
    invariant_except_break prefix(t0, *aggfn, ps, input, e0, p0, __k as int, (prev, false))
    invariant
        __vs@ == ps, ps == args@, e0 == cx.env@, p0 == at(cx), args_ok(ps, e0), __k <= ps.len(), T::of(input) == Some(t0),
    ensures __k == ps.len() && prefix(t0, *aggfn, ps, input, e0, p0, __k as int, (prev, false)) || __k < ps.len() && prefix(t0, *aggfn, ps, input, e0, p0, __k + 1, (prev, true))
    decreases ps.len() - __k
//@loophead 0
    let ghost m0 = prev;
    proof { assert(ps[__k as int] == __vs@[__k as int]); }
    proof { assert forall|x: T, n: (T, bool)| gives(ps[__k as int], input, e0, p0, Some(x.val())) && #[trigger] aggfn.joins(m0, x, n) implies prefix(t0, *aggfn, ps, input, e0, p0, __k + 1, n) by { prefix_more(t0, *aggfn, ps, input, e0, p0, __k as int, m0, x, n); } }
    proof { assert(prefix(t0, *aggfn, ps, input, e0, p0, __k as int, (m0, false))); }
//@endfn
/// without the input: the first argument is where the joining starts
pub open spec fn begun<T: Cast, F: Agg<T>>(f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, k: int, r: (T, bool)) -> bool {
    exists|t: T| gives(ps[0], v, e, p, Some(#[trigger] t.val())) && prefix(t, f, ps.skip(1), v, e, p, k - 1, r)
}
/// whatever is joined to t, t is the result
pub open spec fn settled<T, F: Agg<T>>(f: F, t: T) -> bool { forall|x: T, n: (T, bool)| #[trigger] f.joins(t, x, n) ==> n.0 == t }
pub open spec fn fold1_out<T: Cast, F: Agg<T>>(f: F, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, r: Option<T>) -> bool {
    match r {
        Some(t) => {
            ||| begun(f, ps, v, e, p, ps.len() as int, (t, false))
            ||| exists|k: int| 1 <= k <= ps.len() && #[trigger] begun(f, ps, v, e, p, k, (t, true))
            // a result nothing can change may end it as well
            ||| exists|k: int| 1 <= k <= ps.len() && #[trigger] begun(f, ps, v, e, p, k, (t, false)) && settled(f, t)
        },
        None => spoils::<T>(ps[0], v, e, p) || exists|k: int, t: T| 1 <= k < ps.len() && #[trigger] begun(f, ps, v, e, p, k, (t, false)) && spoils::<T>(ps[k], v, e, p),
    }
}
//@closure variadic_intrinsic_in_agnostic eval_o:0 as=agnostic_step
//@sig fn agnostic_step<T: Cast, F: Agg<T>>(input: Value, cx: Context, args: &Vec<Argument>, aggfn: &F) -> (ret: Result<(T, Environment)>)
    requires args_ok(args@, cx.env@), args@.len() > 0
    ensures
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
        fold1_out(*aggfn, args@, input, cx.env@, at(cx), out_o(ret)),
//@head
    let ghost ps = args@;
    let ghost e0 = cx.env@;
    let ghost p0 = at(cx);
    proof {
        assert forall|t: T| gives(ps[0], input, e0, p0, Some(#[trigger] t.val())) implies begun(*aggfn, ps, input, e0, p0, 1, (t, false)) by { prefix_none(t, *aggfn, ps.skip(1), input, e0, p0); }
    }
//@loop 0
    invariant_except_break begun(*aggfn, ps, input, e0, p0, __k as int, (prev, false))
    invariant
        __vs == args, ps == args@, e0 == cx.env@, p0 == at(cx), args_ok(args@, e0), 1 <= __k <= ps.len(),
    ensures __k == ps.len() && begun(*aggfn, ps, input, e0, p0, __k as int, (prev, false)) || __k < ps.len() && begun(*aggfn, ps, input, e0, p0, __k + 1, (prev, true))
    decreases ps.len() - __k
//@loophead 0
    let ghost m0 = prev;
    proof { assert(ps[__k as int] == __vs@[__k as int]); }
    proof {
        assert forall|x: T, n: (T, bool)| gives(ps[__k as int], input, e0, p0, Some(x.val())) && #[trigger] aggfn.joins(m0, x, n) implies begun(*aggfn, ps, input, e0, p0, __k + 1, n) by {
            let t = choose|t: T| gives(ps[0], input, e0, p0, Some(#[trigger] t.val())) && prefix(t, *aggfn, ps.skip(1), input, e0, p0, __k - 1, (m0, false));
            assert(ps.skip(1)[__k - 1] == ps[__k as int]);
            prefix_more(t, *aggfn, ps.skip(1), input, e0, p0, __k - 1, m0, x, n);
        }
    }
    proof { assert(begun(*aggfn, ps, input, e0, p0, __k as int, (m0, false))); }
//@endfn
// --- the joins ---
pub open spec fn and_joins(a: bool, b: bool, r: (bool, bool)) -> bool { r.0 == (a && b) && (r.1 ==> !r.0) }
pub open spec fn or_joins(a: bool, b: bool, r: (bool, bool)) -> bool { r.0 == (a || b) && (r.1 ==> r.0) }
//@src ogma/src/lang/impls/intrinsics/logic.rs
/// and is settled by a false only
//@closure and_intrinsic variadic_intrinsic_in_agnostic:0 as=and_join
//@sig fn and_join(prev: bool, next: bool) -> (ret: (bool, bool))
    ensures and_joins(prev, next, ret)
//@endfn
/// or is settled by a true only
//@closure or_intrinsic variadic_intrinsic_in_agnostic:0 as=or_join
//@sig fn or_join(prev: bool, next: bool) -> (ret: (bool, bool))
    ensures or_joins(prev, next, ret)
//@endfn
pub struct AndF;
impl Agg<bool> for AndF {
    open spec fn joins(&self, a: bool, b: bool, r: (bool, bool)) -> bool { and_joins(a, b, r) }
    fn call(&self, a: bool, b: bool) -> (r: (bool, bool)) { and_join(a, b) }
}
pub struct OrF;
impl Agg<bool> for OrF {
    open spec fn joins(&self, a: bool, b: bool, r: (bool, bool)) -> bool { or_joins(a, b, r) }
    fn call(&self, a: bool, b: bool) -> (r: (bool, bool)) { or_join(a, b) }
}
/// and: true means every argument gives true; false means one of them gives false
pub proof fn and_means(ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, r: bool)
    requires ps.len() > 0, fold1_out(AndF, ps, v, e, p, Some(r))
    ensures
        r ==> forall|j: int| 0 <= j < ps.len() ==> gives(#[trigger] ps[j], v, e, p, Some(Value::Bool(true))),
        !r ==> exists|j: int| 0 <= j < ps.len() && gives(#[trigger] ps[j], v, e, p, Some(Value::Bool(false))),
{
    let k = if begun(AndF, ps, v, e, p, ps.len() as int, (r, false)) { ps.len() as int } else if exists|k: int| 1 <= k <= ps.len() && #[trigger] begun(AndF, ps, v, e, p, k, (r, true)) { choose|k: int| 1 <= k <= ps.len() && #[trigger] begun(AndF, ps, v, e, p, k, (r, true)) } else { choose|k: int| 1 <= k <= ps.len() && #[trigger] begun(AndF, ps, v, e, p, k, (r, false)) && settled(AndF, r) };
    let s = !begun(AndF, ps, v, e, p, ps.len() as int, (r, false)) && begun(AndF, ps, v, e, p, k, (r, true));
    let t = choose|t: bool| gives(ps[0], v, e, p, Some(#[trigger] t.val())) && prefix(t, AndF, ps.skip(1), v, e, p, k - 1, (r, s));
    let (xs, accs) = choose|xs: Seq<bool>, accs: Seq<(bool, bool)>| #[trigger] folding(xs, accs, AndF, ps.skip(1), v, e, p) && accs[0].0 == t && xs.len() == k - 1 && accs.last() == (r, s);
    and_fold(xs, accs, ps.skip(1), v, e, p, xs.len() as int);
    assert forall|j: int| 0 <= j < ps.skip(1).len() implies ps.skip(1)[j] == #[trigger] ps[j + 1] by {}
    if r {
        if k < ps.len() { if s { assert(folded(xs[k - 2], accs[k - 2], accs[k - 1], AndF, ps.skip(1)[k - 2], v, e, p)); } else { assert(AndF.joins(true, false, (false, false))); } }
        assert forall|j: int| 0 <= j < ps.len() implies gives(#[trigger] ps[j], v, e, p, Some(Value::Bool(true))) by { if j > 0 { assert(xs[j - 1]); assert(ps.skip(1)[j - 1] == ps[j]); } }
    } else if t {
        let j = choose|j: int| 0 <= j < xs.len() && !#[trigger] xs[j];
        assert(ps.skip(1)[j] == ps[j + 1]);
        assert(gives(ps[j + 1], v, e, p, Some(Value::Bool(false))));
    } else { assert(gives(ps[0], v, e, p, Some(Value::Bool(false)))); }
}
pub proof fn and_fold(xs: Seq<bool>, accs: Seq<(bool, bool)>, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, k: int)
    requires folding(xs, accs, AndF, ps, v, e, p), 0 <= k <= xs.len()
    ensures
        accs[k].0 == (accs[0].0 && forall|j: int| 0 <= j < k ==> #[trigger] xs[j]),
        forall|j: int| 0 <= j < xs.len() ==> gives(ps[j], v, e, p, Some(Value::Bool(#[trigger] xs[j]))),
    decreases k
{
    assert forall|j: int| 0 <= j < xs.len() implies gives(ps[j], v, e, p, Some(Value::Bool(#[trigger] xs[j]))) by { assert(folded(xs[j], accs[j], accs[j + 1], AndF, ps[j], v, e, p)); }
    if k > 0 { and_fold(xs, accs, ps, v, e, p, k - 1); assert(folded(xs[k - 1], accs[k - 1], accs[k], AndF, ps[k - 1], v, e, p)); }
}
/// or: false means every argument gives false; true means one of them gives true
pub proof fn or_means(ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, r: bool)
    requires ps.len() > 0, fold1_out(OrF, ps, v, e, p, Some(r))
    ensures
        !r ==> forall|j: int| 0 <= j < ps.len() ==> gives(#[trigger] ps[j], v, e, p, Some(Value::Bool(false))),
        r ==> exists|j: int| 0 <= j < ps.len() && gives(#[trigger] ps[j], v, e, p, Some(Value::Bool(true))),
{
    let k = if begun(OrF, ps, v, e, p, ps.len() as int, (r, false)) { ps.len() as int } else if exists|k: int| 1 <= k <= ps.len() && #[trigger] begun(OrF, ps, v, e, p, k, (r, true)) { choose|k: int| 1 <= k <= ps.len() && #[trigger] begun(OrF, ps, v, e, p, k, (r, true)) } else { choose|k: int| 1 <= k <= ps.len() && #[trigger] begun(OrF, ps, v, e, p, k, (r, false)) && settled(OrF, r) };
    let s = !begun(OrF, ps, v, e, p, ps.len() as int, (r, false)) && begun(OrF, ps, v, e, p, k, (r, true));
    let t = choose|t: bool| gives(ps[0], v, e, p, Some(#[trigger] t.val())) && prefix(t, OrF, ps.skip(1), v, e, p, k - 1, (r, s));
    let (xs, accs) = choose|xs: Seq<bool>, accs: Seq<(bool, bool)>| #[trigger] folding(xs, accs, OrF, ps.skip(1), v, e, p) && accs[0].0 == t && xs.len() == k - 1 && accs.last() == (r, s);
    or_fold(xs, accs, ps.skip(1), v, e, p, xs.len() as int);
    assert forall|j: int| 0 <= j < ps.skip(1).len() implies ps.skip(1)[j] == #[trigger] ps[j + 1] by {}
    if !r {
        if k < ps.len() { if s { assert(folded(xs[k - 2], accs[k - 2], accs[k - 1], OrF, ps.skip(1)[k - 2], v, e, p)); } else { assert(OrF.joins(false, true, (true, false))); } }
        assert forall|j: int| 0 <= j < ps.len() implies gives(#[trigger] ps[j], v, e, p, Some(Value::Bool(false))) by { if j > 0 { assert(!xs[j - 1]); assert(ps.skip(1)[j - 1] == ps[j]); } }
    } else if !t {
        let j = choose|j: int| 0 <= j < xs.len() && #[trigger] xs[j];
        assert(ps.skip(1)[j] == ps[j + 1]);
        assert(gives(ps[j + 1], v, e, p, Some(Value::Bool(true))));
    } else { assert(gives(ps[0], v, e, p, Some(Value::Bool(true)))); }
}
pub proof fn or_fold(xs: Seq<bool>, accs: Seq<(bool, bool)>, ps: Seq<Argument>, v: Value, e: Seq<Value>, p: At, k: int)
    requires folding(xs, accs, OrF, ps, v, e, p), 0 <= k <= xs.len()
    ensures
        accs[k].0 == (accs[0].0 || exists|j: int| 0 <= j < k && #[trigger] xs[j]),
        forall|j: int| 0 <= j < xs.len() ==> gives(ps[j], v, e, p, Some(Value::Bool(#[trigger] xs[j]))),
    decreases k
{
    assert forall|j: int| 0 <= j < xs.len() implies gives(ps[j], v, e, p, Some(Value::Bool(#[trigger] xs[j]))) by { assert(folded(xs[j], accs[j], accs[j + 1], OrF, ps[j], v, e, p)); }
    if k > 0 { or_fold(xs, accs, ps, v, e, p, k - 1); assert(folded(xs[k - 1], accs[k - 1], accs[k], OrF, ps[k - 1], v, e, p)); }
}

// --- comparison and arithmetic ---
pub use core::cmp::Ordering;
pub mod cmp { pub use core::cmp::Ordering; }
// assume: std's order on bool, usize and str and divvy's on Number; eq says Equal (divvy derives both from one comparison)
pub trait Ordered: Sized { spec fn ord(a: Self, b: Self) -> Ordering; }
pub uninterp spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering;
pub uninterp spec fn num_ord(a: Number, b: Number) -> Ordering;
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl Ordered for bool { open spec fn ord(a: bool, b: bool) -> Ordering { if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater } } }
impl Ordered for usize { open spec fn ord(a: usize, b: usize) -> Ordering { int_ord(a as int, b as int) } }
impl Ordered for Str { open spec fn ord(a: Str, b: Str) -> Ordering { str_ord(a@, b@) } }
impl Ordered for Number { open spec fn ord(a: Number, b: Number) -> Ordering { num_ord(a, b) } }
#[verifier::external_body]
pub fn v_cmp<T: Ordered>(a: &T, b: &T) -> (r: Ordering) ensures r == T::ord(*a, *b) { unimplemented!() }
#[verifier::external_body]
pub fn v_same<T: Ordered>(a: &T, b: &T) -> (r: bool) ensures r == (T::ord(*a, *b) == Ordering::Equal) { unimplemented!() }
pub uninterp spec fn vidx(v: Value) -> usize;
// assume: a value of type Ord has a variant (the type checker's business)
#[verifier::external_body]
pub fn v_vidx(v: &Value) -> (r: usize) ensures r == vidx(*v) { unimplemented!() }
/// comparing the input with what the argument gives for it
pub open spec fn compares<T: Cast + Ordered>(a: Argument, v: Value, e: Seq<Value>, p: At, r: Option<Ordering>) -> bool {
    match r {
        Some(o) => T::of(v) is Some && exists|y: T| gives(a, v, e, p, Some(#[trigger] y.val())) && o == T::ord(T::of(v)->Some_0, y),
        None => T::of(v) is None || spoils::<T>(a, v, e, p),
    }
}
pub open spec fn equals<T: Cast + Ordered>(a: Argument, v: Value, e: Seq<Value>, p: At, r: Option<bool>) -> bool {
    match r {
        Some(o) => T::of(v) is Some && exists|y: T| gives(a, v, e, p, Some(#[trigger] y.val())) && o == (T::ord(T::of(v)->Some_0, y) == Ordering::Equal),
        None => T::of(v) is None || spoils::<T>(a, v, e, p),
    }
}
impl Str { #[verifier::external_body] pub fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() } }
//@src ogma/src/lang/impls/intrinsics/cmp.rs
//@closure cmp_bool_intrinsic eval_o:0 as=cmp_bool
//@sig fn cmp_bool(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(Ordering, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures compares::<bool>(*rhs, lhs, cx.env@, at(cx), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure eq_bool_intrinsic eval_o:0 as=eq_bool
//@sig fn eq_bool(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(bool, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures equals::<bool>(*rhs, lhs, cx.env@, at(cx), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure cmp_num_intrinsic eval_o:0 as=cmp_num
//@sig fn cmp_num(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(Ordering, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures compares::<Number>(*rhs, lhs, cx.env@, at(cx), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure eq_num_intrinsic eval_o:0 as=eq_num
//@sig fn eq_num(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(bool, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures equals::<Number>(*rhs, lhs, cx.env@, at(cx), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure cmp_str_intrinsic eval_o:0 as=cmp_str
//@sig fn cmp_str(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(Ordering, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures compares::<Str>(*rhs, lhs, cx.env@, at(cx), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure eq_str_intrinsic eval_o:0 as=eq_str
//@sig fn eq_str(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(bool, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures equals::<Str>(*rhs, lhs, cx.env@, at(cx), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure cmp_ord_intrinsic eval_o:0 as=cmp_ord
//@sig fn cmp_ord(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(Ordering, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
        match out_o(ret) { Some(o) => exists|y: Value| #[trigger] gives(*rhs, lhs, cx.env@, at(cx), Some(y)) && o == int_ord(vidx(lhs) as int, vidx(y) as int), None => gives(*rhs, lhs, cx.env@, at(cx), None) },
//@endfn
//@closure eq_ord_intrinsic eval_o:0 as=eq_ord
//@sig fn eq_ord(lhs: Value, cx: Context, rhs: &Argument) -> (ret: Result<(bool, Environment)>)
    requires arg_ok(*rhs, cx.env@)
    ensures
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
        match out_o(ret) { Some(o) => exists|y: Value| #[trigger] gives(*rhs, lhs, cx.env@, at(cx), Some(y)) && o == (vidx(lhs) == vidx(y)), None => gives(*rhs, lhs, cx.env@, at(cx), None) },
//@endfn
//@closure cmp_nil_intrinsic eval_o:0 as=cmp_nil
//@sig fn cmp_nil(lhs: Value, cx: Context) -> (ret: Result<(Ordering, Environment)>)
    ensures out_o(ret) == Some(Ordering::Equal), ret->Ok_0.1@ == cx.env@
//@endfn
//@closure eq_nil_intrinsic eval_o:0 as=eq_nil
//@sig fn eq_nil(lhs: Value, cx: Context) -> (ret: Result<(bool, Environment)>)
    ensures out_o(ret) == Some(true), ret->Ok_0.1@ == cx.env@
//@endfn
// assume: std::cmp::max and min (min: the first of equals; max: the last)
#[verifier::external_body]
pub fn v_max(a: Number, b: Number) -> (r: Number) ensures r == (if num_ord(a, b) == Ordering::Greater { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn v_min(a: Number, b: Number) -> (r: Number) ensures r == (if num_ord(a, b) == Ordering::Greater { b } else { a }) { unimplemented!() }
/// max keeps the greater of two, min the lesser; neither stops early
//@closure max_intrinsic variadic_intrinsic_in_constrained:0 as=max_join
//@sig fn max_join(prev: Number, next: Number) -> (ret: (Number, bool))
    ensures !ret.1, ret.0 == prev || ret.0 == next, num_ord(prev, next) == Ordering::Less ==> ret.0 == next, num_ord(prev, next) == Ordering::Greater ==> ret.0 == prev
//@endfn
//@closure min_intrinsic variadic_intrinsic_in_constrained:0 as=min_join
//@sig fn min_join(prev: Number, next: Number) -> (ret: (Number, bool))
    ensures !ret.1, ret.0 == prev || ret.0 == next, num_ord(prev, next) == Ordering::Less ==> ret.0 == prev, num_ord(prev, next) == Ordering::Greater ==> ret.0 == next
//@endfn
//@src ogma/src/lang/impls/intrinsics/arithmetic.rs
#[verifier::external_body]
pub fn v_push_str(a: &mut Str, b: &Str) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
/// strings are joined end to end
//@closure add_str_intrinsic variadic_intrinsic_in_constrained:0 as=str_join
//@params prev next
//@sig fn str_join(prev_in: Str, next: Str) -> (ret: (Str, bool))
    ensures !ret.1, ret.0@ == prev_in@ + next@
//@head
    let mut prev = prev_in;
//@endfn
pub uninterp spec fn f64_of(n: Number) -> f64;
pub uninterp spec fn num_of(x: f64) -> Number;
impl Number { #[verifier::external_body] pub fn as_f64(self) -> (r: f64) ensures r == f64_of(self) { unimplemented!() } }
#[verifier::external_body]
pub fn v_num(x: f64) -> (r: Number) ensures r == num_of(x) { unimplemented!() }
pub trait NumF { spec fn s_op(&self, a: f64, b: f64) -> f64; fn call(&self, a: f64, b: f64) -> (r: f64) ensures r == self.s_op(a, b); }
/// numbers are joined by the operation, the result so far on the left
//@closure variadic_intrinsic_num variadic_intrinsic_in_constrained:0 as=num_join
//@sig fn num_join<F: NumF>(prev: Number, next: Number, f: &F) -> (ret: (Number, bool))
    ensures !ret.1, ret.0 == num_of(f.s_op(f64_of(prev), f64_of(next)))
//@endfn
//@src ogma/src/lang/impls/intrinsics/logic.rs
//@closure not_bool_intrinsic eval_o:0 as=not_step
//@sig fn not_step(val: Value, cx: Context) -> (ret: Result<(bool, Environment)>)
    ensures match out_o(ret) { Some(b) => truth(val) == Some(!b) && ret->Ok_0.1@ == cx.env@, None => truth(val) is None }
//@endfn
// --- arithmetic ---
/// the operations of std::ops on f64
pub enum Arith { Add, Sub, Mul, Div }
pub uninterp spec fn f_add(a: f64, b: f64) -> f64;
pub uninterp spec fn f_sub(a: f64, b: f64) -> f64;
pub uninterp spec fn f_mul(a: f64, b: f64) -> f64;
pub uninterp spec fn f_div(a: f64, b: f64) -> f64;
impl NumF for Arith {
    open spec fn s_op(&self, a: f64, b: f64) -> f64 { match *self { Arith::Add => f_add(a, b), Arith::Sub => f_sub(a, b), Arith::Mul => f_mul(a, b), Arith::Div => f_div(a, b) } }
    #[verifier::external_body] fn call(&self, a: f64, b: f64) -> f64 { unimplemented!() }
}
#[verifier::external_body]
pub struct ArgBlock { p: u8 }
#[verifier::external_body]
pub struct ArithStep { p: u8 }
/// the operation a step joins its arguments by
pub uninterp spec fn joins_by(s: ArithStep) -> Arith;
// the closure variadic_intrinsic_num makes of it is num_join, proved above
#[verifier::external_body]
pub fn variadic_intrinsic_num(blk: ArgBlock, f: Arith) -> (ret: Result<ArithStep>) ensures ret is Ok ==> joins_by(ret->Ok_0) == f { unimplemented!() }
//@src ogma/src/lang/impls/intrinsics/arithmetic.rs
//@fn add_num_intrinsic
//@sig fn add_num_intrinsic(blk: ArgBlock) -> (ret: Result<ArithStep>)
    ensures ret is Ok ==> joins_by(ret->Ok_0) == Arith::Add
//@endfn
//@fn sub_num_intrinsic
//@sig fn sub_num_intrinsic(blk: ArgBlock) -> (ret: Result<ArithStep>)
    ensures ret is Ok ==> joins_by(ret->Ok_0) == Arith::Sub
//@endfn
//@fn mul_num_intrinsic
//@sig fn mul_num_intrinsic(blk: ArgBlock) -> (ret: Result<ArithStep>)
    ensures ret is Ok ==> joins_by(ret->Ok_0) == Arith::Mul
//@endfn
//@fn div_num_intrinsic
//@sig fn div_num_intrinsic(blk: ArgBlock) -> (ret: Result<ArithStep>)
    ensures ret is Ok ==> joins_by(ret->Ok_0) == Arith::Div
//@endfn
/// f64's own functions
pub uninterp spec fn f_ceil(a: f64) -> f64;
pub uninterp spec fn f_floor(a: f64) -> f64;
pub uninterp spec fn f_finite(a: f64) -> bool;
pub uninterp spec fn f_sqrt(a: f64) -> f64;
pub uninterp spec fn f_cbrt(a: f64) -> f64;
pub uninterp spec fn f_recip(a: f64) -> f64;
pub uninterp spec fn f_powf(a: f64, b: f64) -> f64;
pub uninterp spec fn f_near(a: f64, b: int) -> bool;
#[verifier::external_body]
pub fn v_near(a: f64, b: u8) -> (r: bool) ensures r == f_near(a, b as int) { unimplemented!() }
pub assume_specification [f64::ceil] (x: f64) -> (r: f64) ensures r == f_ceil(x);
pub assume_specification [f64::floor] (x: f64) -> (r: f64) ensures r == f_floor(x);
pub assume_specification [f64::is_finite] (x: f64) -> (r: bool) ensures r == f_finite(x);
pub assume_specification [f64::sqrt] (x: f64) -> (r: f64) ensures r == f_sqrt(x);
pub assume_specification [f64::cbrt] (x: f64) -> (r: f64) ensures r == f_cbrt(x);
pub assume_specification [f64::recip] (x: f64) -> (r: f64) ensures r == f_recip(x);
pub assume_specification [f64::powf] (x: f64, y: f64) -> (r: f64) ensures r == f_powf(x, y);
/// the number of a value, rounded in some way
pub open spec fn of_number(v: Value, f: spec_fn(f64) -> f64, r: Option<Number>) -> bool {
    match r { Some(x) => Number::of(v) is Some && x == num_of(f(f64_of(Number::of(v)->Some_0))), None => Number::of(v) is None }
}
//@closure ceil_num_intrinsic eval_o:0 as=ceil_step
//@sig fn ceil_step(n: Value, cx: Context) -> (ret: Result<(Number, Environment)>)
    ensures of_number(n, |x: f64| f_ceil(x), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure floor_num_intrinsic eval_o:0 as=floor_step
//@sig fn floor_step(n: Value, cx: Context) -> (ret: Result<(Number, Environment)>)
    ensures of_number(n, |x: f64| f_floor(x), out_o(ret)), ret is Ok ==> ret->Ok_0.1@ == cx.env@
//@endfn
//@closure isfinite_num_intrinsic eval_o:0 as=finite_step
//@sig fn finite_step(n: Value, cx: Context) -> (ret: Result<(bool, Environment)>)
    ensures
        match out_o(ret) { Some(b) => Number::of(n) is Some && b == f_finite(f64_of(Number::of(n)->Some_0)), None => Number::of(n) is None },
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
//@endfn
/// the root of this index: a square or cube root, or a power
pub open spec fn f_root(x: f64, i: f64) -> f64 { if f_near(i, 2) { f_sqrt(x) } else if f_near(i, 3) { f_cbrt(x) } else { f_powf(x, f_recip(i)) } }
//@closure root_num_intrinsic eval_o:0 as=root_step
//@sig fn root_step(radicand: Value, cx: Context, index: &Argument) -> (ret: Result<(Number, Environment)>)
    requires arg_ok(*index, cx.env@)
    ensures
        ret is Ok ==> ret->Ok_0.1@ == cx.env@,
        match out_o(ret) {
            Some(x) => Number::of(radicand) is Some && exists|i: Number| gives(*index, radicand, cx.env@, at(cx), Some(#[trigger] i.val())) && x == num_of(f_root(f64_of(Number::of(radicand)->Some_0), f64_of(i))),
            None => Number::of(radicand) is None || spoils::<Number>(*index, radicand, cx.env@, at(cx)),
        },
//@endfn
