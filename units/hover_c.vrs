//@include std_option.rules
//@rule first_found
$b_e.iter().find_map(|$p_x| $f)
//@=>
{ let __v = $b_e.as_slice(); let mut __r: Option<Node> = None; let mut __k: usize = 0; while __r.is_none() && __k < __v.len() { let $p_x = &__v[__k]; __r = $f; __k += 1; } __r }
//@endrule
//@rule first_found_in
fields.iter().find_map(|$p_x| $f)
//@=>
{ let __v = fields.as_slice(); let mut __r: Option<Node> = None; let mut __k: usize = 0; while __r.is_none() && __k < __v.len() { let $p_x = &__v[__k]; __r = $f; __k += 1; } __r }
//@endrule
//@rule within
$e.range().contains(&pos)
//@=>
$e.v_within(pos)
//@endrule
//@rule own_tag
tag.make_mut()
//@=>
tag
//@endrule
//@rule owned
$b_e.into_owned()
//@=>
$b_e.clone()
//@endrule
//@rule each_at stmt
for $i_x in &$b_e { $s_body }
//@=>
{ let __v = $b_e.as_slice(); let mut __k: usize = 0; while __k < __v.len() { let $i_x = &__v[__k]; $s_body __k += 1; } }
//@endrule
//@rule each_of stmt
for $i_x in $i_e { $s_body }
//@=>
{ let __v = $i_e.as_slice(); let mut __k: usize = 0; while __k < __v.len() { let $i_x = &__v[__k]; $s_body __k += 1; } }
//@endrule
//@rule each_term stmt
for $i_x in self.terms().iter() { $s_body }
//@=>
{ let __v = self.terms().as_slice(); let mut __k: usize = 0; while __k < __v.len() { let $i_x = &__v[__k]; $s_body __k += 1; } }
//@endrule
// assume: of ogma's syntax tree only the shape; a block gives its operation, its terms and its extent (IBlock)
pub struct Tag { pub start: usize, pub end: usize }
impl Tag {
    pub fn clone(&self) -> (r: Tag) ensures r == *self { Tag { start: self.start, end: self.end } }
    pub fn v_within(&self, pos: usize) -> (r: bool) ensures r == covers(*self, pos as int) { self.start <= pos && pos < self.end }
}
pub open spec fn covers(t: Tag, p: int) -> bool { t.start <= p < t.end }
pub struct Number { pub n: u64 }
pub struct Expression { pub tag: Tag, pub blocks: Vec<Block>, pub out_ty: Option<Tag> }
pub struct Block { pub op: Tag, pub extent: Tag, pub terms: Vec<Term> }
pub enum Term { Arg(Argument), Flag(Tag) }
pub enum Argument { Ident(Tag), Num(Number, Tag), Pound(char, Tag), Var(Tag), Expr(Expression) }
pub struct Parameter { pub ident: Tag, pub ty: Option<Tag> }
pub struct DefinitionImpl { pub name: Tag, pub in_ty: Option<Tag>, pub params: Vec<Parameter>, pub expr: Expression }
pub struct DefinitionType { pub name: Tag, pub ty: TypeVariant }
pub enum TypeVariant { Sum(Vec<Variant>), Product(Vec<Field>) }
pub struct Variant { pub name: Tag, pub fields: Option<Vec<Field>> }
pub struct Field { pub name: Tag, pub ty: Tag, pub params: Vec<Tag> }
pub mod ast { pub use super::{Expression, Block, Term, Argument, Parameter, DefinitionImpl, DefinitionType, TypeVariant, Variant, Field}; }
use Term::*;
impl Block {
    pub fn op(&self) -> (r: &Tag) ensures *r == self.op { &self.op }
    pub fn terms(&self) -> (r: &Vec<Term>) ensures *r == self.terms { &self.terms }
    pub fn block_tag(&self) -> (r: &Tag) ensures *r == self.extent { &self.extent }
}
//@src ogma-ls/completion.rs
//@item NodeType derive=Copy,Clone,PartialEq,Eq
//@item Node
use NodeType as NT;
pub open spec fn leaf(t: Tag, ty: NodeType) -> Node { Node { tag: t, ty } }
// ---- the leaves of a tree, in order ----
pub open spec fn of_expr(e: Expression) -> Seq<Node> decreases e, 0int { of_blocks(e.blocks, e.blocks.len() as int) }
pub open spec fn of_blocks(v: Vec<Block>, k: int) -> Seq<Node> decreases v, k { if k <= 0 || k > v.len() { Seq::empty() } else { of_blocks(v, k - 1) + of_block(v[k - 1]) } }
pub open spec fn of_block(b: Block) -> Seq<Node> decreases b, 0int { seq![leaf(b.op, NodeType::Command)] + of_terms(b.terms, b.terms.len() as int) }
pub open spec fn of_terms(v: Vec<Term>, k: int) -> Seq<Node> decreases v, k { if k <= 0 || k > v.len() { Seq::empty() } else { of_terms(v, k - 1) + of_term(v[k - 1]) } }
pub open spec fn of_term(t: Term) -> Seq<Node> decreases t, 0int { match t { Term::Arg(a) => of_arg(a), Term::Flag(f) => seq![leaf(f, NodeType::Flag)] } }
pub open spec fn of_arg(a: Argument) -> Seq<Node> decreases a, 0int {
    match a {
        Argument::Ident(t) => seq![leaf(t, NodeType::Ident)],
        Argument::Num(_, t) => seq![leaf(t, NodeType::Num)],
        Argument::Var(t) => seq![leaf(t, NodeType::Var)],
        Argument::Pound(_, t) => seq![leaf(t, NodeType::Pound)],
        Argument::Expr(e) => of_expr(e),
    }
}
pub open spec fn of_param(p: Parameter) -> Seq<Node> { seq![leaf(p.ident, NodeType::Parameter)] }
pub open spec fn of_params(v: Seq<Parameter>) -> Seq<Node> decreases v.len() { if v.len() == 0 { Seq::empty() } else { of_params(v.drop_last()) + of_param(v.last()) } }
pub open spec fn of_field(f: Field) -> Seq<Node> { seq![leaf(f.name, NodeType::Field), leaf(f.ty, NodeType::Type)] + f.params@.map_values(|t: Tag| leaf(t, NodeType::TyParameter)) }
pub open spec fn of_fields(v: Seq<Field>) -> Seq<Node> decreases v.len() { if v.len() == 0 { Seq::empty() } else { of_fields(v.drop_last()) + of_field(v.last()) } }
pub open spec fn of_variant(v: Variant) -> Seq<Node> { seq![leaf(v.name, NodeType::Variant)] + inner(v.fields) }
pub open spec fn inner(o: Option<Vec<Field>>) -> Seq<Node> { match o { Some(f) => of_fields(f@), None => Seq::empty() } }
pub open spec fn of_variants(v: Seq<Variant>) -> Seq<Node> decreases v.len() { if v.len() == 0 { Seq::empty() } else { of_variants(v.drop_last()) + of_variant(v.last()) } }
/// the word before the name defined
pub open spec fn keyword(name: Tag) -> Node { leaf(Tag { start: 0, end: if name.start > 0 { (name.start - 1) as usize } else { 0 } }, NodeType::Command) }
pub open spec fn of_impl(d: DefinitionImpl) -> Seq<Node> { seq![keyword(d.name), leaf(d.name, NodeType::Command)] + typed_as(d.in_ty) + of_params(d.params@) + of_expr(d.expr) }
pub open spec fn typed_as(o: Option<Tag>) -> Seq<Node> { match o { Some(t) => seq![leaf(t, NodeType::Type)], None => Seq::empty() } }
pub open spec fn of_type(d: DefinitionType) -> Seq<Node> { seq![keyword(d.name), leaf(d.name, NodeType::Type)] + made_of(d.ty) }
pub open spec fn made_of(t: TypeVariant) -> Seq<Node> { match t { TypeVariant::Sum(v) => of_variants(v@), TypeVariant::Product(f) => of_fields(f@) } }
/// a node found is one of the leaves and covers the place
pub open spec fn right(l: Seq<Node>, pos: int, r: Option<Node>) -> bool { r is Some ==> l.contains(r->Some_0) && covers(r->Some_0.tag, pos) }
/// no leaf that covers the place is passed over
pub open spec fn all_missed(l: Seq<Node>, pos: int) -> bool { forall|k: int| 0 <= k < l.len() ==> !covers((#[trigger] l[k]).tag, pos) }
pub open spec fn in_expr(e: Expression) -> bool { forall|k: int| 0 <= k < of_expr(e).len() ==> part((#[trigger] of_expr(e)[k]).tag, e.tag) }
pub open spec fn in_block(b: Block) -> bool { forall|k: int| 0 <= k < of_block(b).len() ==> part((#[trigger] of_block(b)[k]).tag, b.extent) }
pub open spec fn part(t: Tag, whole: Tag) -> bool { whole.start <= t.start && t.end <= whole.end }
/// every expression and every block extends over its leaves
pub open spec fn fits_expr(e: Expression) -> bool decreases e, 0int { in_expr(e) && forall|k: int| #![trigger e.blocks[k]] 0 <= k < e.blocks.len() ==> fits_block(e.blocks[k]) }
pub open spec fn fits_block(b: Block) -> bool decreases b, 0int { in_block(b) && forall|k: int| #![trigger b.terms[k]] 0 <= k < b.terms.len() ==> fits_term(b.terms[k]) }
pub open spec fn fits_term(t: Term) -> bool decreases t, 0int { match t { Term::Arg(a) => fits_arg(a), Term::Flag(_) => true } }
pub open spec fn fits_arg(a: Argument) -> bool decreases a, 0int { match a { Argument::Expr(e) => fits_expr(e), _ => true } }
pub open spec fn found(l: Seq<Node>, pos: int, r: Option<Node>, fits: bool) -> bool { right(l, pos, r) && (fits && r is None ==> all_missed(l, pos)) }
proof fn lemma_two(a: Seq<Node>, b: Seq<Node>, n: Node)
    ensures a.contains(n) ==> (a + b).contains(n), b.contains(n) ==> (a + b).contains(n),
        forall|pos: int| #[trigger] all_missed(a + b, pos) == (all_missed(a, pos) && all_missed(b, pos))
{
    if a.contains(n) { let k = a.index_of(n); assert((a + b)[k] == n); }
    if b.contains(n) { let k = b.index_of(n); assert((a + b)[a.len() + k] == n); }
    assert forall|pos: int| #[trigger] all_missed(a + b, pos) == (all_missed(a, pos) && all_missed(b, pos)) by {
        if all_missed(a + b, pos) { 
            assert forall|k: int| 0 <= k < a.len() implies !covers((#[trigger] a[k]).tag, pos) by { assert((a + b)[k] == a[k]); }
            assert forall|k: int| 0 <= k < b.len() implies !covers((#[trigger] b[k]).tag, pos) by { assert((a + b)[a.len() + k] == b[k]); }
        }
    }
}
proof fn lemma_blocks(v: Vec<Block>, k: int) requires 0 < k <= v.len() ensures of_blocks(v, k) == of_blocks(v, k - 1) + of_block(v[k - 1]) { }
proof fn lemma_more_blocks(v: Vec<Block>, k: int, m: int, n: Node) requires 0 <= k <= m <= v.len(), of_blocks(v, k).contains(n) ensures of_blocks(v, m).contains(n) decreases m - k
{ if k < m { lemma_more_blocks(v, k, m - 1, n); lemma_two(of_blocks(v, m - 1), of_block(v[m - 1]), n); } }
proof fn lemma_more_terms(v: Vec<Term>, k: int, m: int, n: Node) requires 0 <= k <= m <= v.len(), of_terms(v, k).contains(n) ensures of_terms(v, m).contains(n) decreases m - k
{ if k < m { lemma_more_terms(v, k, m - 1, n); lemma_two(of_terms(v, m - 1), of_term(v[m - 1]), n); } }
impl Node {
//@fn Node::new
//@sig fn new(tag: Tag, ty: NodeType) -> (ret: Self)
    ensures ret == leaf(tag, ty)
//@endfn
}
//@fn is_node
//@sig fn is_node(tag: &Tag, pos: usize, ty: NodeType) -> (ret: Option<Node>)
    ensures ret == (if covers(*tag, pos as int) { Some(leaf(*tag, ty)) } else { None })
//@endfn
impl Argument {
//@fn Argument@Complete::node_at_pos
//@sig #[verifier::exec_allows_no_decreases_clause] fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_arg(*self), pos as int, ret, fits_arg(*self))
//@tail
    proof { if __vret is Some { let n = __vret->Some_0; if !(self is Expr) { assert(of_arg(*self)[0] == n); } } }
//@endfn
//@fn Argument@Complete::append_leaves
//@sig #[verifier::exec_allows_no_decreases_clause] fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_arg(*self)
//@endfn
}
impl Term {
//@fn Term@Complete::node_at_pos
//@sig #[verifier::exec_allows_no_decreases_clause] fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_term(*self), pos as int, ret, fits_term(*self))
//@tail
    proof { if __vret is Some && self is Flag { let n = __vret->Some_0; assert(of_term(*self)[0] == n); } }
//@endfn
//@fn Term@Complete::append_leaves
//@sig #[verifier::exec_allows_no_decreases_clause] fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_term(*self)
//@endfn
}
impl Block {
//@fn Block@Complete::node_at_pos
//@sig #[verifier::exec_allows_no_decreases_clause] fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_block(*self), pos as int, ret, fits_block(*self))
//@head
    proof { if !covers(self.extent, pos as int) && fits_block(*self) { assert(in_block(*self)); } }
//@tail
    proof { let n = if __vret is Some { __vret->Some_0 } else { leaf(self.op, NodeType::Command) }; let o = seq![leaf(self.op, NodeType::Command)]; assert(o[0] == leaf(self.op, NodeType::Command)); lemma_two(o, of_terms(self.terms, self.terms.len() as int), n); }
//@loop 0
    invariant __v@ == self.terms@, __k <= __v.len(), found(of_terms(self.terms, __k as int), pos as int, __r, fits_block(*self)), __r is Some ==> of_terms(self.terms, self.terms.len() as int).contains(__r->Some_0)
    decreases __v.len() - __k
//@loophead 0
    proof { assert(self.terms[__k as int] == __v@[__k as int]); }
//@looptail 0
    proof { if __r is Some { lemma_two(of_terms(self.terms, __k - 1), of_term(self.terms[__k - 1]), __r->Some_0); lemma_more_terms(self.terms, __k as int, self.terms.len() as int, __r->Some_0); } else { lemma_two(of_terms(self.terms, __k - 1), of_term(self.terms[__k - 1]), leaf(self.op, NodeType::Command)); } }
//@endfn
//@fn Block@Complete::append_leaves
//@sig #[verifier::exec_allows_no_decreases_clause] fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_block(*self)
//@head
    let ghost b0 = buf@;
//@loop 0
    invariant __v@ == self.terms@, __k <= __v.len(), buf@ =~= b0 + seq![leaf(self.op, NodeType::Command)] + of_terms(self.terms, __k as int)
    decreases __v.len() - __k
//@endfn
}
impl Expression {
//@fn Expression@Complete::node_at_pos
//@sig #[verifier::exec_allows_no_decreases_clause] fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_expr(*self), pos as int, ret, fits_expr(*self))
//@head
    proof { if !covers(self.tag, pos as int) && fits_expr(*self) { assert(in_expr(*self)); } }
//@loop 0
    invariant __v@ == self.blocks@, __k <= __v.len(), found(of_blocks(self.blocks, __k as int), pos as int, __r, fits_expr(*self)), __r is Some ==> of_blocks(self.blocks, self.blocks.len() as int).contains(__r->Some_0)
    decreases __v.len() - __k
//@loophead 0
    proof { assert(self.blocks[__k as int] == __v@[__k as int]); }
//@looptail 0
    proof { let n = if __r is Some { __r->Some_0 } else { leaf(self.tag, NodeType::Command) }; lemma_two(of_blocks(self.blocks, __k - 1), of_block(self.blocks[__k - 1]), n); if __r is Some { lemma_more_blocks(self.blocks, __k as int, self.blocks.len() as int, n); } }
//@endfn
//@fn Expression@Complete::append_leaves
//@sig #[verifier::exec_allows_no_decreases_clause] fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_expr(*self)
//@head
    let ghost b0 = buf@;
//@loop 0
    invariant __v@ == self.blocks@, __k <= __v.len(), buf@ =~= b0 + of_blocks(self.blocks, __k as int)
    decreases __v.len() - __k
//@endfn
}
proof fn lemma_more_fields(v: Seq<Field>, k: int, n: Node) requires 0 <= k <= v.len(), of_fields(v.take(k)).contains(n) ensures of_fields(v).contains(n) decreases v.len() - k
{ if k < v.len() { let a = v.take(k + 1); assert(a.drop_last() =~= v.take(k)); lemma_two(of_fields(v.take(k)), of_field(a.last()), n); lemma_more_fields(v, k + 1, n); } else { assert(v.take(k) =~= v); } }
proof fn lemma_more_variants(v: Seq<Variant>, k: int, n: Node) requires 0 <= k <= v.len(), of_variants(v.take(k)).contains(n) ensures of_variants(v).contains(n) decreases v.len() - k
{ if k < v.len() { let a = v.take(k + 1); assert(a.drop_last() =~= v.take(k)); lemma_two(of_variants(v.take(k)), of_variant(a.last()), n); lemma_more_variants(v, k + 1, n); } else { assert(v.take(k) =~= v); } }
proof fn lemma_more_params(v: Seq<Parameter>, k: int, n: Node) requires 0 <= k <= v.len(), of_params(v.take(k)).contains(n) ensures of_params(v).contains(n) decreases v.len() - k
{ if k < v.len() { let a = v.take(k + 1); assert(a.drop_last() =~= v.take(k)); lemma_two(of_params(v.take(k)), of_param(a.last()), n); lemma_more_params(v, k + 1, n); } else { assert(v.take(k) =~= v); } }
pub open spec fn of_types(v: Seq<Tag>) -> Seq<Node> { v.map_values(|t: Tag| leaf(t, NodeType::TyParameter)) }
impl Parameter {
//@fn Parameter@Complete::node_at_pos
//@sig fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_param(*self), pos as int, ret, true)
//@tail
    proof { assert(of_param(*self)[0] == leaf(self.ident, NodeType::Parameter)); }
//@endfn
//@fn Parameter@Complete::append_leaves
//@sig fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_param(*self)
//@endfn
}
impl Field {
//@fn Field@Complete::node_at_pos
//@sig fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_field(*self), pos as int, ret, true)
//@loop 0
    invariant __v@ == self.params@, __k <= __v.len(), all_missed(of_types(self.params@.take(__k as int)), pos as int) || __r is Some, __r is Some ==> of_types(self.params@).contains(__r->Some_0) && covers(__r->Some_0.tag, pos as int)
    decreases __v.len() - __k
//@looptail 0
    proof { 
        let t = self.params@[__k - 1];
        assert(of_types(self.params@)[__k - 1] == leaf(t, NodeType::TyParameter));
        let a = of_types(self.params@.take(__k as int)); let b = of_types(self.params@.take(__k - 1));
        assert(a =~= b.push(leaf(t, NodeType::TyParameter)));
    }
//@tail
    proof { 
        let l = of_field(*self); let m = seq![leaf(self.name, NodeType::Field), leaf(self.ty, NodeType::Type)];
        assert(m[0] == leaf(self.name, NodeType::Field)); assert(m[1] == leaf(self.ty, NodeType::Type));
        assert(self.params@.take(self.params.len() as int) =~= self.params@);
        lemma_two(m, of_types(self.params@), if __vret is Some { __vret->Some_0 } else { m[0] });
    }
//@endfn
//@fn Field@Complete::append_leaves
//@sig fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_field(*self)
//@head
    let ghost b0 = buf@;
//@loop 0
    invariant __v@ == self.params@, __k <= __v.len(), buf@ =~= b0 + seq![leaf(self.name, NodeType::Field), leaf(self.ty, NodeType::Type)] + of_types(self.params@.take(__k as int))
    decreases __v.len() - __k
//@looptail 0
    proof { assert(of_types(self.params@.take(__k as int)) =~= of_types(self.params@.take(__k - 1)).push(leaf(self.params@[__k - 1], NodeType::TyParameter))); }
//@after 0
    proof { assert(self.params@.take(self.params.len() as int) =~= self.params@); }
//@endfn
}
impl Variant {
//@fn Variant@Complete::node_at_pos
//@sig fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found(of_variant(*self), pos as int, ret, true)
//@loop 0
    invariant Some(*fields) == self.fields, __v@ == fields@, __k <= __v.len(), found(of_fields(fields@.take(__k as int)), pos as int, __r, true), __r is Some ==> of_fields(fields@).contains(__r->Some_0)
    decreases __v.len() - __k
//@looptail 0
    proof { let a = fields@.take(__k as int); assert(a.drop_last() =~= fields@.take(__k - 1)); lemma_two(of_fields(fields@.take(__k - 1)), of_field(a.last()), if __r is Some { __r->Some_0 } else { leaf(self.name, NodeType::Variant) }); if __r is Some { lemma_more_fields(fields@, __k as int, __r->Some_0); } }
//@after 0
    proof { assert(fields@.take(fields.len() as int) =~= fields@); }
//@tail
    proof { 
        let m = seq![leaf(self.name, NodeType::Variant)]; assert(m[0] == leaf(self.name, NodeType::Variant));
        lemma_two(m, inner(self.fields), if __vret is Some { __vret->Some_0 } else { m[0] });
    }
//@endfn
//@fn Variant@Complete::append_leaves
//@sig fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_variant(*self)
//@head
    let ghost b0 = buf@;
//@loop 0
    invariant Some(*fields) == self.fields, __v@ == fields@, __k <= __v.len(), buf@ =~= b0 + seq![leaf(self.name, NodeType::Variant)] + of_fields(fields@.take(__k as int))
    decreases __v.len() - __k
//@looptail 0
    proof { assert(fields@.take(__k as int).drop_last() =~= fields@.take(__k - 1)); }
//@after 0
    proof { assert(fields@.take(fields.len() as int) =~= fields@); }
//@endfn
}
/// what is found in a definition: the word before the name stands for the whole place before it
pub open spec fn found_in_def(name: Tag, l: Seq<Node>, pos: int, r: Option<Node>, fits: bool) -> bool { if pos < name.start { r == Some(keyword(name)) } else { found(l, pos, r, fits) } }
impl DefinitionType {
//@fn DefinitionType@Complete::node_at_pos
//@sig fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found_in_def(self.name, of_type(*self), pos as int, ret, true)
//@loop 0
    invariant TypeVariant::Sum(*variants) == self.ty, __v@ == variants@, __k <= __v.len(), found(of_variants(variants@.take(__k as int)), pos as int, __r, true), __r is Some ==> of_variants(variants@).contains(__r->Some_0)
    decreases __v.len() - __k
//@looptail 0
    proof { let a = variants@.take(__k as int); assert(a.drop_last() =~= variants@.take(__k - 1)); lemma_two(of_variants(variants@.take(__k - 1)), of_variant(a.last()), if __r is Some { __r->Some_0 } else { leaf(self.name, NodeType::Variant) }); if __r is Some { lemma_more_variants(variants@, __k as int, __r->Some_0); } }
//@after 0
    proof { assert(variants@.take(variants.len() as int) =~= variants@); }
//@loop 1
    invariant TypeVariant::Product(*fields) == self.ty, __v@ == fields@, __k <= __v.len(), found(of_fields(fields@.take(__k as int)), pos as int, __r, true), __r is Some ==> of_fields(fields@).contains(__r->Some_0)
    decreases __v.len() - __k
//@looptail 1
    proof { let a = fields@.take(__k as int); assert(a.drop_last() =~= fields@.take(__k - 1)); lemma_two(of_fields(fields@.take(__k - 1)), of_field(a.last()), if __r is Some { __r->Some_0 } else { leaf(self.name, NodeType::Variant) }); if __r is Some { lemma_more_fields(fields@, __k as int, __r->Some_0); } }
//@after 1
    proof { assert(fields@.take(fields.len() as int) =~= fields@); }
//@tail
    proof { 
        let m = seq![keyword(self.name), leaf(self.name, NodeType::Type)]; assert(m[1] == leaf(self.name, NodeType::Type)); assert(m[0] == keyword(self.name));
        lemma_two(m, made_of(self.ty), if __vret is Some { __vret->Some_0 } else { m[0] });
    }
//@endfn
//@fn DefinitionType@Complete::append_leaves
//@sig fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_type(*self)
//@head
    let ghost b0 = buf@;
//@loop 0
    invariant TypeVariant::Sum(*variants) == self.ty, __v@ == variants@, __k <= __v.len(), buf@ =~= b0 + seq![keyword(self.name), leaf(self.name, NodeType::Type)] + of_variants(variants@.take(__k as int))
    decreases __v.len() - __k
//@looptail 0
    proof { assert(variants@.take(__k as int).drop_last() =~= variants@.take(__k - 1)); }
//@after 0
    proof { assert(variants@.take(variants.len() as int) =~= variants@); }
//@loop 1
    invariant TypeVariant::Product(*fields) == self.ty, __v@ == fields@, __k <= __v.len(), buf@ =~= b0 + seq![keyword(self.name), leaf(self.name, NodeType::Type)] + of_fields(fields@.take(__k as int))
    decreases __v.len() - __k
//@looptail 1
    proof { assert(fields@.take(__k as int).drop_last() =~= fields@.take(__k - 1)); }
//@after 1
    proof { assert(fields@.take(fields.len() as int) =~= fields@); }
//@endfn
}
impl DefinitionImpl {
//@fn DefinitionImpl@Complete::node_at_pos
//@sig fn node_at_pos(&self, pos: usize) -> (ret: Option<Node>)
    ensures found_in_def(self.name, of_impl(*self), pos as int, ret, fits_expr(self.expr))
//@loop 0
    invariant __v@ == self.params@, __k <= __v.len(), found(of_params(self.params@.take(__k as int)), pos as int, __r, true), __r is Some ==> of_params(self.params@).contains(__r->Some_0)
    decreases __v.len() - __k
//@looptail 0
    proof { let v = self.params@; let a = v.take(__k as int); assert(a.drop_last() =~= v.take(__k - 1)); lemma_two(of_params(v.take(__k - 1)), of_param(a.last()), if __r is Some { __r->Some_0 } else { leaf(self.name, NodeType::Command) }); if __r is Some { lemma_more_params(v, __k as int, __r->Some_0); } }
//@after 0
    proof { assert(self.params@.take(self.params.len() as int) =~= self.params@); }
//@tail
    proof { 
        let m = seq![keyword(self.name), leaf(self.name, NodeType::Command)]; assert(m[1] == leaf(self.name, NodeType::Command)); assert(m[0] == keyword(self.name));
        let n = if __vret is Some { __vret->Some_0 } else { m[0] };
        let t = typed_as(self.in_ty);
        if self.in_ty is Some { assert(t[0] == leaf(self.in_ty->Some_0, NodeType::Type)); }
        lemma_two(m, t, n); lemma_two(m + t, of_params(self.params@), n); lemma_two(m + t + of_params(self.params@), of_expr(self.expr), n);
    }
//@endfn
//@fn DefinitionImpl@Complete::append_leaves
//@sig fn append_leaves(&self, mut buf: Vec<Node>) -> (ret: Vec<Node>)
    ensures ret@ =~= buf@ + of_impl(*self)
//@head
    let ghost b0 = buf@;
//@loop 0
    invariant __v@ == self.params@, __k <= __v.len(), buf@ =~= b0 + seq![keyword(self.name), leaf(self.name, NodeType::Command)] + typed_as(self.in_ty) + of_params(self.params@.take(__k as int))
    decreases __v.len() - __k
//@looptail 0
    proof { assert(self.params@.take(__k as int).drop_last() =~= self.params@.take(__k - 1)); }
//@after 0
    proof { assert(self.params@.take(self.params.len() as int) =~= self.params@); }
//@endfn
}
