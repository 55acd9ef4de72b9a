// assume: a &str taken from another one by trimming, splitting into lines or slicing stays a part of the same text (org, at)
//@rule map_or_line
v_lines($b_s).nth($n).map_or(false, |$i_l| $e)
//@=>
match v_nth_line($b_s, $n) { Some($i_l) => $e, None => false }
//@endrule
//@rule lines
$b_s.lines()
//@=>
v_lines($b_s)
//@endrule
//@rule for_lines
for $i_l in lines { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < lines.len() { let $i_l = lines[__k]; __k += 1; $s_body } }
//@endrule
//@rule for_items
for item in items { $s_body }
//@=>
{ let mut __k: usize = 0; while __k < items.len() { let item = items[__k]; __k += 1; $s_body } }
//@endrule
//@rule span
&text[text.offset($i_a)..text.offset($i_b) + $i_b.len()]
//@=>
v_span(text, *$i_a, $i_b)
//@endrule
//@rule after
&text[text.offset($i_b) + $i_b.len()..]
//@=>
v_after(text, $i_b)
//@endrule
//@rule newlines
line.line[..line.line.offset(i)].chars().filter(|&c| c == '\n').count()
//@=>
v_newlines(line.line.v_str(), i)
//@endrule
//@rule newlines2
line.line[..line.line.offset(code)].chars().filter(|&c| c == '\n').count()
//@=>
v_newlines(line.line.v_str(), code)
//@endrule
//@rule line_u16
u16::try_from($e).map_err($f)
//@=>
v_u16($e)
//@endrule
//@rule last_mut
$b_v.last_mut().expect($m)
//@=>
v_last_mut(&mut $b_v)
//@endrule
//@rule strip
$b_s.strip_prefix('#')
//@=>
v_strip_hash($b_s)
//@endrule
//@rule ltrim_line
line.line.trim_start()
//@=>
v_trim_start(line.line.v_str())
//@endrule
//@rule blank
v_trim($b_s).is_empty()
//@=>
v_empty(v_trim($b_s))
//@endrule
//@rule trim
$b_s.trim()
//@=>
v_trim($b_s)
//@endrule
//@rule code_empty
code.is_empty()
//@=>
v_empty(code)
//@endrule
//@rule doc_empty
doc.is_empty()
//@=>
v_no_text(&doc)
//@endrule
//@rule doc__empty
doc_.is_empty()
//@=>
v_no_text(&doc_)
//@endrule
//@rule push_text
doc.push_str($e)
//@=>
v_push_str(&mut doc, $e)
//@endrule
//@rule push_nl
doc.push($e)
//@=>
v_push_char(&mut doc, $e)
//@endrule
//@rule pop_nl stmt
doc.pop();
//@=>
v_pop_char(&mut doc);
//@endrule
//@rule then_some
($c).then_some($e)
//@=>
if $c { Some($e) } else { None }
//@endrule
//@rule starts
code.starts_with($e)
//@=>
v_starts(code, $e)
//@endrule
//@rule owned
$b_s.to_owned()
//@=>
v_owned($b_s)
//@endrule
//@rule name_string
name.to_string()
//@=>
v_name(name)
//@endrule
//@rule text_into
text.into()
//@=>
v_text(text)
//@endrule
//@rule dirs
opt(terminated(directive_line(&line), cut(line_ending)))(text).map_err($f)
//@=>
v_directives(text)
//@endrule
//@rule dirs_ext
directives.extend(ds.into_iter())
//@=>
v_extend(&mut directives, ds)
//@endrule
//@rule break_t
break t
//@=>
{ __out = t; break }
//@endrule
//@rule break_loop stmt
let text = loop { $s_body };
//@=>
let mut __out: &str = text;
loop { $s_body }
let text = __out;
//@endrule
//@rule tyname
defty_name(&line)(code).map_err($f)
//@=>
v_ty_name(code)
//@endrule
//@rule opname
def_op(&line)(code).map_err($f)
//@=>
v_op_name(code)
//@endrule
//@rule exactly_three
$i_a.into_iter().map(|$p_x| $e).chain($i_b.into_iter().map(|$p_y| $f)).chain($i_c.into_iter().map(|$p_z| $g)).collect()
//@=>
{ let mut __r: Vec<BatchItem> = Vec::new();
  let mut __a = $i_a; while __a.len() > 0 { let $p_x = __a.remove(0); __r.push($e); }
  let mut __b = $i_b; while __b.len() > 0 { let $p_y = __b.remove(0); __r.push($f); }
  let mut __c = $i_c; while __c.len() > 0 { let $p_z = __c.remove(0); __r.push($g); }
  __r }
//@endrule
//@rule any_dir
directives.iter().any(|x| x == &$e)
//@=>
v_any_dir(&directives, $e)
//@endrule
//@rule here
Path::new($e).into()
//@=>
v_path($e)
//@endrule
//@rule outline
lang::parse::file(s, loc)
//@=>
file(s, loc)
//@endrule
//@rule arc_path
Arc::from(f.as_ref())
//@=>
v_file_ref(f)
//@endrule
//@rule arc_clone
Arc::clone(&f)
//@=>
f.clone()
//@endrule
//@rule read
fs::read_to_string(&f)
//@=>
v_read(&f)
//@endrule
//@rule set_file
v.items.iter_mut().for_each(|x| $s_e)
//@=>
{ let mut __k: usize = 0; while __k < v.items.len() { if let Some(x) = v.items.get_mut(__k) { $s_e; } __k += 1; } }
//@endrule
//@rule fileref type
Arc<Path>
//@=>
FileRef
//@endrule
//@src ogma/src/lang/syntax/parse/file.rs
//@item Item
//@item File
//@known doc_comment split_items file parse_str directive_line defty_name def_op convert_parse_error
//@src ogma/src/rt/bat.rs
//@item Batch
//@item BatchItem
//@item ItemType derive=PartialEq,Eq,Clone,Copy,Structural
#[verifier::external_body]
pub struct Imports { p: u8 }
#[verifier::external_body]
pub struct Exports { p: u8 }
pub enum Directive { NoParallelise, FailFast, Import(Imports), Export(Exports) }
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub struct IoError { p: u8 }
#[verifier::external_body]
pub struct FileRef { p: u8 }
impl FileRef { #[verifier::external_body] pub fn clone(&self) -> (r: FileRef) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct PathRef { p: u8 }
pub uninterp spec fn the_file(p: PathRef) -> FileRef;
#[verifier::external_body]
pub fn v_file_ref(p: PathRef) -> (r: FileRef) ensures r == the_file(p) { unimplemented!() }
pub uninterp spec fn here(s: Seq<char>) -> FileRef;
#[verifier::external_body]
pub fn v_path(s: &str) -> (r: FileRef) ensures r == here(s@) { unimplemented!() }
pub uninterp spec fn content(f: FileRef) -> Option<Seq<char>>;
// assume: read_to_string gives the file's content or an error
#[verifier::external_body]
pub fn v_read(f: &FileRef) -> (r: Result<String, IoError>) ensures match r { Ok(s) => content(*f) == Some(s@), Err(_) => content(*f) is None } { unimplemented!() }
pub enum Location { Shell, Ogma, File(FileRef, u16) }
impl Location { #[verifier::external_body] pub fn clone(&self) -> (r: Location) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Text { p: u8 }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn v_str(&self) -> (r: &str) ensures r@ == self@, org(r) == self@, at(r) == 0, placed(r) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_text(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
pub struct Line { pub loc: Location, pub line: Text }

// ---- parts of a text ----
/// the text a &str is a part of, and where it starts there
pub uninterp spec fn org(s: &str) -> Seq<char>;
pub uninterp spec fn at(s: &str) -> int;
pub open spec fn placed(s: &str) -> bool { 0 <= at(s) && at(s) + s@.len() <= org(s).len() && s@ == org(s).subrange(at(s), at(s) + s@.len()) }
pub open spec fn inside(s: &str, t: &str) -> bool { placed(s) && placed(t) && org(s) == org(t) && at(t) <= at(s) && at(s) + s@.len() <= at(t) + t@.len() }
pub open spec fn part(r: &str, t: &str, a: int, b: int) -> bool { placed(r) && org(r) == org(t) && at(r) == at(t) + a && r@ == t@.subrange(a, b) }
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) }
/// where the first character that is not white stands (or the end)
pub open spec fn first_ink(s: Seq<char>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || !white(s[i]) { i } else { first_ink(s, i + 1) } }
pub open spec fn last_ink(s: Seq<char>, i: int) -> int decreases i { if i <= 0 || !white(s[i - 1]) { i } else { last_ink(s, i - 1) } }
pub open spec fn trim_from(s: Seq<char>) -> int { first_ink(s, 0) }
pub open spec fn trim_to(s: Seq<char>) -> int { let e = last_ink(s, s.len() as int); if e < trim_from(s) { trim_from(s) } else { e } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { s.subrange(trim_from(s), trim_to(s)) }
/// the lines of a text: where each starts and ends, without its line break
pub open spec fn eol(s: Seq<char>, i: int) -> int decreases s.len() - i { if i >= s.len() { s.len() as int } else if s[i] == '\n' { i } else { eol(s, i + 1) } }
pub open spec fn lns(s: Seq<char>, i: int) -> Seq<(int, int)> decreases s.len() + 1 - i when i >= 0 via lns_dec {
    if i >= s.len() { Seq::empty() } else {
        let e = eol(s, i);
        seq![(i, if e < s.len() && e > i && s[e - 1] == '\r' { e - 1 } else { e })] + lns(s, e + 1)
    }
}
#[via_fn]
proof fn lns_dec(s: Seq<char>, i: int) { lemma_eol(s, i); }
pub proof fn lemma_eol(s: Seq<char>, i: int) requires 0 <= i ensures i <= s.len() ==> i <= eol(s, i) <= s.len() decreases s.len() - i { if i < s.len() && s[i] != '\n' { lemma_eol(s, i + 1); } }
/// lines stand in order
pub proof fn lemma_lns(s: Seq<char>, i: int)
    requires i >= 0
    ensures forall|k: int| 0 <= k < lns(s, i).len() ==> i <= (#[trigger] lns(s, i)[k]).0 <= lns(s, i)[k].1 <= s.len(),
        forall|k: int, m: int| 0 <= k < m < lns(s, i).len() ==> (#[trigger] lns(s, i)[k]).1 <= (#[trigger] lns(s, i)[m]).0
    decreases s.len() + 1 - i
{
    lemma_eol(s, i);
    if i < s.len() {
        let e = eol(s, i); let t = lns(s, e + 1); let l = lns(s, i);
        lemma_lns(s, e + 1);
        assert(l.len() == t.len() + 1 && i <= l[0].0 <= l[0].1 <= e);
        assert forall|k: int| 0 < k < l.len() implies #[trigger] l[k] == t[k - 1] by {}
    }
}
pub open spec fn line_of(s: Seq<char>, k: int) -> Seq<char> { s.subrange(lns(s, 0)[k].0, lns(s, 0)[k].1) }
#[verifier::external_body]
pub fn v_lines(s: &str) -> (r: Vec<&str>)
    requires placed(s)
    ensures r@.len() == lns(s@, 0).len(), forall|k: int| 0 <= k < r@.len() ==> part(#[trigger] r@[k], s, lns(s@, 0)[k].0, lns(s@, 0)[k].1)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_nth_line(s: &str, n: usize) -> (r: Option<&str>)
    requires placed(s)
    ensures match r { Some(l) => n < lns(s@, 0).len() && part(l, s, lns(s@, 0)[n as int].0, lns(s@, 0)[n as int].1), None => n >= lns(s@, 0).len() }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_span<'a>(t: &'a str, a: &str, b: &str) -> (r: &'a str)
    requires inside(a, t), inside(b, t), at(a) <= at(b) + b@.len()
    ensures part(r, t, at(a) - at(t), at(b) + b@.len() - at(t))
{ unimplemented!() }
#[verifier::external_body]
pub fn v_after<'a>(t: &'a str, b: &str) -> (r: &'a str)
    requires inside(b, t)
    ensures part(r, t, at(b) + b@.len() - at(t), t@.len() as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_trim(s: &str) -> (r: &str) requires placed(s) ensures part(r, s, trim_from(s@), trim_to(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn v_trim_start(s: &str) -> (r: &str) requires placed(s) ensures part(r, s, trim_from(s@), s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_hash(s: &str) -> (r: Option<&str>)
    requires placed(s)
    ensures match r { Some(l) => s@.len() > 0 && s@[0] == '#' && part(l, s, 1, s@.len() as int), None => s@.len() == 0 || s@[0] != '#' }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn v_no_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn v_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_starts(s: &str, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_push_str(d: &mut String, s: &str) ensures final(d)@ == old(d)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_push_char(d: &mut String, c: char) ensures final(d)@ == old(d)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_pop_char(d: &mut String) ensures final(d)@ == (if old(d)@.len() > 0 { old(d)@.drop_last() } else { old(d)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn v_last_mut<'a, 'b>(v: &'b mut Vec<&'a str>) -> (r: &'b mut &'a str)
    requires old(v)@.len() > 0
    ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r))
{ unimplemented!() }
pub open spec fn nl_count(s: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { nl_count(s, n - 1) + (if s[n - 1] == '\n' { 1int } else { 0 }) } }
#[verifier::external_body]
pub fn v_newlines(s: &str, i: &str) -> (r: usize)
    requires inside(i, s), at(s) == 0
    ensures r == nl_count(s@, at(i)), r < usize::MAX
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u16(n: usize) -> (r: Result<u16, Error>) ensures match r { Ok(x) => x == n, Err(_) => n > 0xffff } { unimplemented!() }
#[verifier::external_body]
pub fn v_extend(v: &mut Vec<Directive>, w: Vec<Directive>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
pub open spec fn any_dir(d: Seq<Directive>, x: Directive) -> bool { exists|i: int| 0 <= i < d.len() && #[trigger] d[i] == x }
#[verifier::external_body]
pub fn v_any_dir(d: &Vec<Directive>, x: Directive) -> (r: bool)
    requires x is NoParallelise || x is FailFast
    ensures r == any_dir(d@, x)
{ unimplemented!() }
// assume: parsing a line of directives, and the name of a definition, is a function of the text it is given (which texts are accepted is checked by the harness)
pub enum Dirs { Bad, None, Some(Seq<Directive>, int) }
pub uninterp spec fn dline(s: Seq<char>) -> Dirs;
#[verifier::external_body]
pub fn v_directives(s: &str) -> (r: Result<(&str, Option<Vec<Directive>>), Error>)
    requires placed(s)
    ensures match (r, dline(s@)) {
        (Err(_), Dirs::Bad) => true,
        (Ok((t, None)), Dirs::None) => part(t, s, 0, s@.len() as int),
        (Ok((t, Some(v))), Dirs::Some(ds, n)) => v@ == ds && 0 < n <= s@.len() && part(t, s, n, s@.len() as int),
        _ => false,
    }
{ unimplemented!() }
#[verifier::external_body]
pub struct Name { p: u8 }
impl Name { pub uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn ty_name(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn op_name(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn v_ty_name(s: &str) -> (r: Result<((), Name), Error>) ensures match r { Ok((_, n)) => ty_name(s@) == Some(n@), Err(_) => ty_name(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn v_op_name(s: &str) -> (r: Result<((), Name), Error>) ensures match r { Ok((_, n)) => op_name(s@) == Some(n@), Err(_) => op_name(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn v_name(n: Name) -> (r: String) ensures r@ == n@ { unimplemented!() }

// ---- what a file means ----
/// a line that is a comment: `#` comes first
pub open spec fn hashed(l: Seq<char>) -> bool { let t = trimmed(l); t.len() > 0 && t[0] == '#' }
/// the comment's text
pub open spec fn said(l: Seq<char>) -> Seq<char> { let t = trimmed(l); trimmed(t.subrange(1, t.len() as int)) }
/// how many lines from line k on are comments
pub open spec fn comments(s: Seq<char>, k: int) -> int decreases lns(s, 0).len() - k {
    if 0 <= k < lns(s, 0).len() && hashed(line_of(s, k)) { comments(s, k + 1) } else { k }
}
/// the texts of the first k lines, each ended by a line break
pub open spec fn told(s: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { (told(s, k - 1) + said(line_of(s, k - 1))).push('\n') } }
/// the comment a text starts with, and where it ends
pub open spec fn comment(s: Seq<char>) -> Seq<char> { let t = told(s, comments(s, 0)); if t.len() > 0 { t.drop_last() } else { t } }
pub open spec fn comment_end(s: Seq<char>) -> int { if comments(s, 0) == 0 { 0 } else { lns(s, 0)[comments(s, 0) - 1].1 } }
pub open spec fn some_text(t: Seq<char>) -> Option<Seq<char>> { if t.len() == 0 { None } else { Some(t) } }
/// the paragraphs among the first n lines: longest runs of lines that are not blank
pub open spec fn paras(s: Seq<char>, n: int) -> Seq<(int, int)> decreases n {
    if n <= 0 { Seq::empty() }
    else if blank(line_of(s, n - 1)) { paras(s, n - 1) }
    else if n >= 2 && !blank(line_of(s, n - 2)) { let p = paras(s, n - 1); p.update(p.len() - 1, (p.last().0, lns(s, 0)[n - 1].1)) }
    else { paras(s, n - 1).push(lns(s, 0)[n - 1]) }
}
pub open spec fn paragraphs(s: Seq<char>) -> Seq<(int, int)> { paras(s, lns(s, 0).len() as int) }
/// paragraphs stand in order, apart, inside the text
pub proof fn lemma_paras(s: Seq<char>, n: int)
    requires 0 <= n <= lns(s, 0).len()
    ensures
        n >= 1 && !blank(line_of(s, n - 1)) ==> paras(s, n).len() > 0 && paras(s, n).last().1 == lns(s, 0)[n - 1].1,
        forall|k: int| 0 <= k < paras(s, n).len() ==> 0 <= (#[trigger] paras(s, n)[k]).0 <= paras(s, n)[k].1 <= s.len(),
        n > 0 ==> forall|k: int| 0 <= k < paras(s, n).len() ==> (#[trigger] paras(s, n)[k]).1 <= lns(s, 0)[n - 1].1,
        forall|k: int, m: int| 0 <= k < m < paras(s, n).len() ==> (#[trigger] paras(s, n)[k]).1 <= (#[trigger] paras(s, n)[m]).0,
    decreases n
{ lemma_lns(s, 0); if n > 0 { lemma_paras(s, n - 1); } }
pub proof fn lemma_first(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= first_ink(s, i) <= s.len(), forall|k: int| i <= k < first_ink(s, i) ==> white(#[trigger] s[k]), first_ink(s, i) < s.len() ==> !white(s[first_ink(s, i)])
    decreases s.len() - i
{ if i < s.len() && white(s[i]) { lemma_first(s, i + 1); } }
pub proof fn lemma_last(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures 0 <= last_ink(s, i) <= i, forall|k: int| last_ink(s, i) <= k < i ==> white(#[trigger] s[k]), last_ink(s, i) > 0 ==> !white(s[last_ink(s, i) - 1])
    decreases i
{ if i > 0 && white(s[i - 1]) { lemma_last(s, i - 1); } }
pub proof fn lemma_trim(s: Seq<char>)
    ensures 0 <= trim_from(s) <= trim_to(s) <= s.len(), trim_from(s) == trim_to(s) <==> blank(s)
{ lemma_first(s, 0); lemma_last(s, s.len() as int); }
pub proof fn lemma_trim_all() ensures forall|s: Seq<char>| 0 <= #[trigger] trim_from(s) <= trim_to(s) <= s.len() && (trim_from(s) == trim_to(s) <==> blank(s))
{ assert forall|s: Seq<char>| 0 <= #[trigger] trim_from(s) <= trim_to(s) <= s.len() && (trim_from(s) == trim_to(s) <==> blank(s)) by { lemma_trim(s); } }
pub proof fn lemma_comments_at(s: Seq<char>, a: int, k: int)
    requires 0 <= a <= k <= lns(s, 0).len(), forall|i: int| a <= i < k ==> hashed(#[trigger] line_of(s, i)), k == lns(s, 0).len() || !hashed(line_of(s, k))
    ensures comments(s, a) == k
    decreases k - a
{ if a < k { assert(hashed(line_of(s, a))); lemma_comments_at(s, a + 1, k); } }
//@src ogma/src/lang/syntax/parse/file.rs
//@fn doc_comment
//@params text
    requires placed(text)
    ensures ret.0@ == comment(text@), part(ret.1, text, comment_end(text@), text@.len() as int)
//@head
    proof { lemma_lns(text@, 0); lemma_comments(text@, 0); assert(text@ =~= text@.subrange(0, text@.len() as int)); }
//@loop 0
    invariant_except_break
        doc@ == told(text@, __k as int), __k == lines@.len() ==> comments(text@, 0) == __k, forall|i: int| 0 <= i < __k ==> hashed(#[trigger] line_of(text@, i)),
        part(t, text, if __k == 0 { 0 } else { lns(text@, 0)[__k - 1].1 }, text@.len() as int),
    invariant
        placed(text), __k <= lines@.len(), lines@.len() == lns(text@, 0).len(),
        forall|k: int| 0 <= k < lines@.len() ==> part(#[trigger] lines@[k], text, lns(text@, 0)[k].0, lns(text@, 0)[k].1),
    ensures
        doc@ == told(text@, comments(text@, 0)), part(t, text, comment_end(text@), text@.len() as int),
    decreases lines@.len() - __k
//@loophead 0
    proof { lemma_lns(text@, 0); lemma_trim_all(); if !hashed(line_of(text@, __k as int)) { lemma_comments_at(text@, 0, __k as int); } }
//@looptail 0
    proof { if __k == lines@.len() { lemma_comments_at(text@, 0, __k as int); } }
//@endfn
/// comments: all lines before are comments, the one there is none
pub proof fn lemma_comments(s: Seq<char>, k: int)
    requires 0 <= k <= lns(s, 0).len()
    ensures k <= comments(s, k) <= lns(s, 0).len(), forall|i: int| k <= i < comments(s, k) ==> hashed(#[trigger] line_of(s, i)), comments(s, k) < lns(s, 0).len() ==> !hashed(line_of(s, comments(s, k)))
    decreases lns(s, 0).len() - k
{ if k < lns(s, 0).len() && hashed(line_of(s, k)) { lemma_comments(s, k + 1); } }
//@fn split_items
//@params text
    requires placed(text)
    ensures ret@.len() == paragraphs(text@).len(), forall|i: int| 0 <= i < ret@.len() ==> part(#[trigger] ret@[i], text, paragraphs(text@)[i].0, paragraphs(text@)[i].1)
//@head
    proof { lemma_lns(text@, 0); }
//@loop 0
    invariant
        placed(text), __k <= lines@.len(), lines@.len() == lns(text@, 0).len(),
        forall|k: int| 0 <= k < lines@.len() ==> part(#[trigger] lines@[k], text, lns(text@, 0)[k].0, lns(text@, 0)[k].1),
        new <==> (__k == 0 || blank(line_of(text@, __k - 1))),
        ss@.len() == paras(text@, __k as int).len(),
        forall|i: int| 0 <= i < ss@.len() ==> part(#[trigger] ss@[i], text, paras(text@, __k as int)[i].0, paras(text@, __k as int)[i].1),
    decreases lines@.len() - __k
//@loophead 0
    proof { lemma_lns(text@, 0); lemma_trim_all(); lemma_paras(text@, __k as int); lemma_paras(text@, __k + 1); }
//@endfn

/// the directives a text starts with (None: one is not accepted), and where they end
pub open spec fn dirs(s: Seq<char>) -> Option<(Seq<Directive>, int)> decreases s.len() {
    match dline(s) {
        Dirs::Bad => None,
        Dirs::None => Some((Seq::empty(), 0int)),
        Dirs::Some(ds, n) => if 0 < n <= s.len() { match dirs(s.subrange(n, s.len() as int)) { None => None, Some(r) => Some((ds + r.0, n + r.1)) } } else { None },
    }
}
pub proof fn lemma_dirs(s: Seq<char>) ensures match dirs(s) { Some(r) => 0 <= r.1 <= s.len(), None => true } decreases s.len()
{ match dline(s) { Dirs::Some(ds, n) => if 0 < n <= s.len() { lemma_dirs(s.subrange(n, s.len() as int)); }, _ => {} } }
pub enum Kind { Type, Impl, Expr, Nothing }
/// an item: its kind, name, comment, code and the line its code starts on
pub struct Piece { pub kind: Kind, pub name: Option<Seq<char>>, pub doc: Option<Seq<char>>, pub code: Seq<char>, pub line: int }
pub open spec fn ty_word() -> Seq<char> { seq!['d', 'e', 'f', '-', 't', 'y', ' '] }
pub open spec fn op_word() -> Seq<char> { seq!['d', 'e', 'f', ' '] }
pub open spec fn kind_of(code: Seq<char>) -> Kind {
    if code.len() == 0 { Kind::Nothing } else if ty_word().is_prefix_of(code) { Kind::Type } else if op_word().is_prefix_of(code) { Kind::Impl } else { Kind::Expr }
}
/// the item that the paragraph of `s` at p is, if the comment before it is its own
pub open spec fn piece(s: Seq<char>, p: (int, int), own: Option<Option<Seq<char>>>) -> Piece {
    let t = s.subrange(p.0, p.1);
    let after = t.subrange(comment_end(t), t.len() as int);
    let code = trimmed(after);
    let kind = kind_of(code);
    Piece {
        kind, code,
        name: if kind is Type { ty_name(code) } else if kind is Impl { op_name(code) } else { None },
        doc: match own { Some(d) => d, None => some_text(comment(t)) },
        line: nl_count(s, p.0 + comment_end(t) + trim_from(after)) + 1,
    }
}
/// whether the file can hold it
pub open spec fn fits(x: Piece) -> bool { x.kind is Nothing || x.line <= 65535 && ((x.kind is Type || x.kind is Impl) ==> x.name is Some) }
/// a file: where its parts are
pub struct Plan { pub whole: Seq<char>, pub head: Seq<char>, pub dirs: Option<(Seq<Directive>, int)>, pub start: int }
pub open spec fn plan(s: Seq<char>) -> Plan {
    let a = trim_from(s);
    let body = s.subrange(a, s.len() as int);
    let c = comment_end(body);
    let d = dirs(body.subrange(c, body.len() as int));
    Plan { whole: s, head: comment(body), dirs: d, start: a + c + (match d { Some(x) => x.1, None => 0int }) }
}
pub open spec fn rest(p: Plan) -> Seq<char> { p.whole.subrange(p.start, p.whole.len() as int) }
/// the file's comment is the first item's: no directives, and the item follows on the next line
pub open spec fn joined(p: Plan) -> bool { p.dirs.unwrap().0.len() == 0 && lns(rest(p), 0).len() > 1 && !blank(line_of(rest(p), 1)) }
/// its paragraphs
pub open spec fn count(p: Plan) -> int { paragraphs(rest(p)).len() as int }
pub open spec fn nth(p: Plan, i: int) -> Piece {
    let r = paragraphs(rest(p))[i];
    piece(p.whole, (p.start + r.0, p.start + r.1), if i == 0 && joined(p) { Some(some_text(p.head)) } else { None })
}
/// the items of a kind among the first n paragraphs, in order
pub open spec fn listed(p: Plan, n: int, k: Kind) -> Seq<Piece> decreases n { if n <= 0 { Seq::empty() } else if nth(p, n - 1).kind == k { listed(p, n - 1, k).push(nth(p, n - 1)) } else { listed(p, n - 1, k) } }
pub open spec fn all_fit(p: Plan, n: int) -> bool { forall|i: int| 0 <= i < n ==> fits(#[trigger] nth(p, i)) }
pub open spec fn text_of(d: Option<String>) -> Option<Seq<char>> { match d { Some(x) => Some(x@), None => None } }
pub open spec fn shows(x: Item, y: Piece) -> bool { text_of(x.doc) == y.doc && x.code@ == y.code && x.line == y.line }
pub open spec fn shows_all(v: Seq<Item>, l: Seq<Piece>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> shows(#[trigger] v[i], l[i]) }
pub open spec fn shows_named(v: Seq<(String, Item)>, l: Seq<Piece>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> Some((#[trigger] v[i]).0@) == l[i].name && shows(v[i].1, l[i]) }
/// the file read is the one written
pub open spec fn outline(f: File, p: Plan) -> bool {
    &&& text_of(f.doc) == (if joined(p) && count(p) > 0 { None } else { some_text(p.head) })
    &&& f.directives@ == p.dirs.unwrap().0
    &&& shows_named(f.types@, listed(p, count(p), Kind::Type))
    &&& shows_named(f.impls@, listed(p, count(p), Kind::Impl))
    &&& shows_all(f.exprs@, listed(p, count(p), Kind::Expr))
}
pub open spec fn readable(p: Plan) -> bool { p.dirs is Some && all_fit(p, count(p)) }
proof fn lemma_words()
    ensures "def-ty "@ == ty_word(), "def "@ == op_word()
{ reveal_strlit("def-ty "); reveal_strlit("def "); assert("def-ty "@ =~= ty_word()); assert("def "@ =~= op_word()); }
pub proof fn lemma_comment_end(s: Seq<char>) ensures 0 <= comment_end(s) <= s.len() { lemma_lns(s, 0); lemma_comments(s, 0); }
proof fn lemma_rest(p: Plan)
    ensures listed(p, 0, Kind::Type).len() == 0, listed(p, 0, Kind::Impl).len() == 0, listed(p, 0, Kind::Expr).len() == 0,
        joined(p) == (p.dirs.unwrap().0.len() == 0 && lns(rest(p), 0).len() > 1 && trim_from(line_of(rest(p), 1)) < trim_to(line_of(rest(p), 1))),
        forall|k: int| 0 <= k < paragraphs(rest(p)).len() ==> 0 <= (#[trigger] paragraphs(rest(p))[k]).0 <= paragraphs(rest(p))[k].1 <= rest(p).len(),
        lns(rest(p), 0).len() > 1 ==> 0 <= lns(rest(p), 0)[1].0 <= lns(rest(p), 0)[1].1 <= rest(p).len(),
{ lemma_trim_all(); lemma_lns(rest(p), 0); lemma_paras(rest(p), lns(rest(p), 0).len() as int); }
/// what the nth item is, and the lists up to it
proof fn lemma_nth(p: Plan, i: int)
    requires 0 <= i < count(p), 0 <= p.start <= p.whole.len()
    ensures ({
        let y = nth(p, i); let r = paragraphs(rest(p))[i]; let t = p.whole.subrange(p.start + r.0, p.start + r.1); let c = comment_end(t); let after = t.subrange(c, t.len() as int);
        &&& 0 <= r.0 <= r.1 <= rest(p).len() && p.start + rest(p).len() == p.whole.len()
        &&& 0 <= c <= t.len()
        &&& y.code == after.subrange(trim_from(after), trim_to(after))
        &&& y.line == nl_count(p.whole, p.start + r.0 + c + trim_from(after)) + 1
        &&& y.kind == kind_of(y.code)
        &&& y.doc == if i == 0 && joined(p) { some_text(p.head) } else { some_text(comment(t)) }
        &&& y.name == if y.kind is Type { ty_name(y.code) } else if y.kind is Impl { op_name(y.code) } else { None }
        &&& listed(p, i + 1, Kind::Type) == if y.kind is Type { listed(p, i, Kind::Type).push(y) } else { listed(p, i, Kind::Type) }
        &&& listed(p, i + 1, Kind::Impl) == if y.kind is Impl { listed(p, i, Kind::Impl).push(y) } else { listed(p, i, Kind::Impl) }
        &&& listed(p, i + 1, Kind::Expr) == if y.kind is Expr { listed(p, i, Kind::Expr).push(y) } else { listed(p, i, Kind::Expr) }
    })
{
    lemma_trim_all(); lemma_lns(rest(p), 0); lemma_paras(rest(p), lns(rest(p), 0).len() as int);
    let r = paragraphs(rest(p))[i]; let t = p.whole.subrange(p.start + r.0, p.start + r.1); lemma_comment_end(t);
}
//@fn file
//@sig #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn file(text: &str, loc: Location) -> (ret: Result<File, Error>)
//@params text loc
    ensures ret is Ok <==> readable(plan(text@)), match ret { Ok(f) => outline(f, plan(text@)), Err(_) => true }
//@head
    hide(lns); hide(paragraphs); hide(comment); hide(comment_end); hide(trim_from); hide(trim_to); hide(nl_count); hide(listed); hide(nth); hide(joined);
    let ghost s = text@; let ghost p = plan(s); let ghost b = s.subrange(trim_from(s), s.len() as int); let ghost b2 = b.subrange(comment_end(b), b.len() as int);
    proof { lemma_trim(s); lemma_comment_end(b); lemma_words(); lemma_dirs(b2); }
//@loop 0
    invariant
        placed(text), org(text) == s, text@ =~= s.subrange(at(text), s.len() as int), at(text) >= p.start - (match p.dirs { Some(x) => x.1, None => 0int }),
        match dirs(text@) { None => dirs(b2) is None, Some(r) => match dirs(b2) { None => false, Some(q) => q.0 =~= directives@ + r.0 && p.start == at(text) + r.1 } },
    ensures
        p.dirs is Some, directives@ =~= p.dirs.unwrap().0, placed(__out), org(__out) == s, at(__out) == p.start, __out@ =~= rest(p),
    decreases text@.len()
//@loophead 0
    proof { lemma_dirs(text@); }
//@loop 1
    invariant
        __k <= items@.len(), mv_doc <==> (__k == 0 && joined(p)),
        text_of(doc) == (if joined(p) && __k > 0 { None } else { some_text(p.head) }),
        shows_named(types@, listed(p, __k as int, Kind::Type)),
        shows_named(impls@, listed(p, __k as int, Kind::Impl)),
        shows_all(exprs@, listed(p, __k as int, Kind::Expr)),
        all_fit(p, __k as int),
    decreases items@.len() - __k
//@before 1
    proof { lemma_trim_all(); lemma_rest(p); assert(text@ =~= rest(p)); }
//@loophead 1
    let ghost i0 = __k as int; let ghost y = nth(p, i0); let ghost r0 = paragraphs(rest(p))[i0]; let ghost it = s.subrange(p.start + r0.0, p.start + r0.1);
    proof {
        lemma_trim_all(); lemma_nth(p, i0);
        assert(items@[i0]@ =~= it);
    }
//@endfn

// ---- reading a batch ----
/// a batch item with everything but the file it is from
pub open spec fn made(x: BatchItem, y: Piece, f: FileRef) -> bool {
    &&& text_of(x.comment) == y.doc && x.code@ == y.code && x.line == y.line && x.file == f
    &&& match x.ty { ItemType::Type => y.kind is Type, ItemType::Impl => y.kind is Impl, ItemType::Expr => y.kind is Expr }
}
pub open spec fn made_all(v: Seq<BatchItem>, l: Seq<Piece>, f: FileRef) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> made(#[trigger] v[i], l[i], f) }
/// what a batch holds, in order: type definitions, then implementations, then expressions
pub open spec fn listing(p: Plan) -> Seq<Piece> { listed(p, count(p), Kind::Type) + listed(p, count(p), Kind::Impl) + listed(p, count(p), Kind::Expr) }
pub open spec fn batched(b: Batch, p: Plan, f: FileRef) -> bool {
    &&& made_all(b.items@, listing(p), f)
    &&& b.parallelise == !any_dir(p.dirs.unwrap().0, Directive::NoParallelise)
    &&& b.fail_fast == any_dir(p.dirs.unwrap().0, Directive::FailFast)
}
proof fn lemma_kinds(p: Plan, n: int, k: Kind)
    ensures forall|i: int| 0 <= i < listed(p, n, k).len() ==> (#[trigger] listed(p, n, k)[i]).kind == k
    decreases n
{ if n > 0 { lemma_kinds(p, n - 1, k); } }
//@src ogma/src/rt/bat.rs
//@fn parse_str
//@sig fn parse_str(s: &str, loc: Location) -> (ret: Result<Batch, Error>)
//@params s loc
    ensures ret is Ok <==> readable(plan(s@)), match ret { Ok(b) => batched(b, plan(s@), here("."@)), Err(_) => true }
//@head
    hide(listed); hide(plan); hide(count);
    let ghost p = plan(s@); let ghost n = count(p); let ghost lt = listed(p, n, Kind::Type); let ghost li = listed(p, n, Kind::Impl); let ghost le = listed(p, n, Kind::Expr);
    proof { lemma_kinds(p, n, Kind::Type); lemma_kinds(p, n, Kind::Impl); lemma_kinds(p, n, Kind::Expr); }
//@loop 0
    invariant
        __a@.len() <= lt.len(), shows_named(__a@, lt.subrange(lt.len() - __a@.len(), lt.len() as int)), made_all(__r@, lt.subrange(0, lt.len() - __a@.len()), here("."@)),
        forall|i: int| 0 <= i < lt.len() ==> (#[trigger] lt[i]).kind is Type,
    decreases __a@.len()
//@loop 1
    invariant
        __b@.len() <= li.len(), shows_named(__b@, li.subrange(li.len() - __b@.len(), li.len() as int)), made_all(__r@, lt + li.subrange(0, li.len() - __b@.len()), here("."@)),
        forall|i: int| 0 <= i < li.len() ==> (#[trigger] li[i]).kind is Impl,
    decreases __b@.len()
//@loop 2
    invariant
        __c@.len() <= le.len(), shows_all(__c@, le.subrange(le.len() - __c@.len(), le.len() as int)), made_all(__r@, lt + li + le.subrange(0, le.len() - __c@.len()), here("."@)),
        forall|i: int| 0 <= i < le.len() ==> (#[trigger] le[i]).kind is Expr,
    decreases __c@.len()
//@endfn
//@fn parse_file
//@sig fn parse_file(f: PathRef) -> (ret: Result<Result<Batch, Error>, IoError>)
//@params f
    ensures match (ret, content(the_file(f))) {
        (Err(_), None) => true,
        (Ok(r), Some(s)) => (r is Ok <==> readable(plan(s))) && match r { Ok(b) => batched(b, plan(s), the_file(f)), Err(_) => true },
        _ => false,
    }
//@head
    hide(listed); hide(plan); hide(count);
    let ghost ff = the_file(f); let ghost p = plan(content(ff).unwrap()); let ghost h = here("."@);
//@loop 0
    invariant
        __k <= v.items@.len(), v.items@.len() == listing(p).len(), f == ff, h == here("."@),
        forall|i: int| 0 <= i < v.items@.len() ==> made(#[trigger] v.items@[i], listing(p)[i], if i < __k { ff } else { h }),
        v.parallelise == !any_dir(p.dirs.unwrap().0, Directive::NoParallelise),
        v.fail_fast == any_dir(p.dirs.unwrap().0, Directive::FailFast),
    decreases v.items@.len() - __k
//@endfn
