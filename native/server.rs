// crate: og
#![allow(dead_code, unused_imports, unused_variables, unused_mut, missing_docs)]
//@src ogma-ls/lib.rs
//@text modpath
//@include _support.rs
mod vh {
    use super::*;
    use crate::completion::*;
    use lsp_types::*;
    use support::*;

    // ---- the client's own idea of a document: lines of UTF-16 units ----
    type Doc = Vec<u16>;
    fn u(s: &str) -> Doc { s.encode_utf16().collect() }
    fn t(d: &[u16]) -> String { String::from_utf16(d).expect("the client splits no character") }
    /// where each line begins
    fn starts(d: &[u16]) -> Vec<usize> { std::iter::once(0).chain(d.iter().enumerate().filter(|x| *x.1 == 10).map(|x| x.0 + 1)).collect() }
    fn ends(d: &[u16]) -> Vec<usize> {
        let s = starts(d);
        (0..s.len())
            .map(|i| {
                let e = if i + 1 < s.len() { s[i + 1] - 1 } else { d.len() };
                if i + 1 < s.len() && e > s[i] && d[e - 1] == 13 { e - 1 } else { e }
            })
            .collect()
    }
    /// the index of a position as the protocol has it
    fn index(d: &[u16], p: Position) -> usize {
        let (s, e) = (starts(d), ends(d));
        let l = p.line as usize;
        if l >= s.len() { d.len() } else { (s[l] + p.character as usize).min(e[l]) }
    }
    fn split(d: &[u16], i: usize) -> bool { i > 0 && i < d.len() && (0xDC00..0xE000).contains(&d[i]) }
    const PIECES: &[&str] = &["a", "b", " ", "é", "漢", "𝄞", "😀", "\n", "\r\n", "\n\n", "#", "|", "word", "1 ", "\t"];
    fn text(r: &mut Rng, n: usize) -> String { (0..r.below(n + 1)).map(|_| *r.pick(PIECES)).collect() }
    /// a position of the document, possibly beyond a line's or the document's end
    fn pos(r: &mut Rng, d: &[u16]) -> Position {
        loop {
            let s = starts(d);
            let l = r.below(s.len() + 1);
            let p = Position::new(l as u32, if r.below(12) == 0 { 999 } else if l < s.len() { r.below(ends(d)[l] - s[l] + 3) as u32 } else { r.below(3) as u32 });
            if !split(d, index(d, p)) { return p; }
        }
    }
    fn edit(r: &mut Rng, d: &mut Doc) -> TextDocumentContentChangeEvent {
        let new = text(r, 4);
        if r.below(12) == 0 {
            *d = u(&new);
            return TextDocumentContentChangeEvent { range: None, range_length: None, text: new };
        }
        let (mut a, mut b) = (pos(r, d), pos(r, d));
        if r.below(3) == 0 { b = a; }
        if (index(d, b), b) < (index(d, a), a) { std::mem::swap(&mut a, &mut b); }
        let (i, j) = (index(d, a), index(d, b));
        d.splice(i..j, u(&new));
        TextDocumentContentChangeEvent { range: Some(Range::new(a, b)), range_length: None, text: new }
    }

    pub fn positions(rep: &mut Rep) {
        let mut r = rep.rng(1);
        let n = rep.n(4000, 40000);
        rep.bound(&format!("{n} random texts of up to 12 pieces (letters, accents, ideographs, characters beyond U+FFFF, line feeds with and without carriage return), 6 positions each, on, at and beyond the ends of lines"));
        for _ in 0..n {
            let s = text(&mut r, 12);
            let d = u(&s);
            for _ in 0..6 {
                let p = pos(&mut r, &d);
                rep.case(true, || format!("{s:?} {p:?}"), || {
                    let want = t(&d[..index(&d, p)]).len();
                    let got = pos_to_idx(&s, p);
                    if got == want { Ok(()) } else { Err(format!("position is byte {got} instead of {want}")) }
                });
            }
        }
    }
    pub fn changes(rep: &mut Rep) {
        let mut r = rep.rng(2);
        let n = rep.n(3000, 30000);
        rep.bound(&format!("{n} documents, each with up to 7 versions of up to 3 changes, arriving in any order, outdated ones again in between"));
        for k in 0..n {
            let first = text(&mut r, 10);
            let mut d = u(&first);
            let v0 = r.below(5) as i32 + if k % 9 == 0 { -3 } else { 0 };
            let m = r.below(7) + 1;
            let mut texts = vec![first.clone()];
            let mut sent = vec![];
            for i in 0..m {
                let c: Vec<_> = (0..r.below(3) + 1).map(|_| edit(&mut r, &mut d)).collect();
                texts.push(t(&d));
                sent.push((v0 + 1 + i as i32, c));
            }
            let mut order: Vec<usize> = (0..m).collect();
            if r.below(3) > 0 { for i in 0..m { let j = i + r.below(m - i); order.swap(i, j); } }
            let again: Vec<bool> = (0..m).map(|_| r.below(4) == 0).collect();
            rep.case(m > 1, || format!("{first:?} version {v0}, changes {sent:?} arriving in the order {order:?}"), || {
                let w = Workspace::init();
                let url = Url::from_file_path("/tmp/x.ogma").unwrap();
                w.add_file(url.clone(), File::new(first.clone(), v0));
                let other = Url::from_file_path("/tmp/y.ogma").unwrap();
                w.add_file(other.clone(), File::new("other".into(), v0));
                let mut seen = vec![false; m];
                for &i in &order {
                    w.add_file_changes(&url, sent[i].0, sent[i].1.clone());
                    seen[i] = true;
                    let upto = seen.iter().take_while(|x| **x).count();
                    if again[i] && upto > 1 {
                        // one applied long ago
                        w.add_file_changes(&url, sent[upto - 2].0, sent[upto - 2].1.clone());
                    }
                    let got = whole(&w, &url);
                    if got != norm(&texts[upto]) { return Err(format!("once versions {:?} have arrived the text is {got:?} instead of {:?}", seen, norm(&texts[upto]))); }
                }
                if whole(&w, &other) != "other\n" { return Err("another document changed".into()); }
                if w.get_def_text(&Url::from_file_path("/tmp/z.ogma").unwrap(), 0).is_some() { return Err("an unknown document has a text".into()); }
                Ok(())
            });
        }
    }
    /// the lines of a text, each with a line feed
    fn norm(s: &str) -> String { s.lines().map(|l| format!("{l}\n")).collect() }
    /// the document put together from its definitions
    fn whole(w: &Workspace, url: &Url) -> String {
        let mut all = String::new();
        for i in 0.. {
            let (from, s) = w.get_def_text(url, i).unwrap();
            match s.lines().nth(i.wrapping_sub(from)) { Some(l) => { all += l; all.push('\n') } None => break }
        }
        all
    }

    pub fn definitions(rep: &mut Rep) {
        let mut r = rep.rng(3);
        let n = rep.n(3000, 30000);
        rep.bound(&format!("{n} texts of up to 9 lines (blank, spaces, comments, code), every line and two beyond"));
        for _ in 0..n {
            let ls: Vec<&str> = (0..r.below(10)).map(|_| *r.pick(&["", "", " ", "# note", "#", "def f () {", " \\ 1 }", "é | x", "  #t", "x"])).collect();
            let s: String = ls.join(if r.below(4) == 0 { "\r\n" } else { "\n" }) + if r.below(2) == 0 { "\n" } else { "" };
            let ls: Vec<&str> = s.lines().collect();
            for line in 0..ls.len() + 2 {
                rep.case(ls.len() > 2, || format!("{s:?} line {line}"), || {
                    let w = Workspace::init();
                    let url = Url::from_file_path("/tmp/x.ogma").unwrap();
                    w.add_file(url.clone(), File::new(s.clone(), 1));
                    let top = line.min(ls.len());
                    let mut a = top;
                    while a > 0 && !ls[a - 1].trim().is_empty() { a -= 1; }
                    while a < top && ls[a].starts_with('#') { a += 1; }
                    let mut b = top;
                    if line < ls.len() {
                        b = line + 1;
                        while b < ls.len() && !ls[b].trim().is_empty() { b += 1; }
                    }
                    let want = (if a < b { a } else { 0 }, ls[a..b].iter().map(|l| format!("{l}\n")).collect::<String>());
                    let got = w.get_def_text(&url, line);
                    if got.as_ref() == Some(&want) { Ok(()) } else { Err(format!("gave {got:?} instead of {want:?}")) }
                });
            }
        }
    }
    pub fn at_cursor(rep: &mut Rep) {
        let dir = std::path::Path::new(&rep.scratch).join("dir");
        std::fs::create_dir_all(dir.join("sub dir/deep")).unwrap();
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        for f in ["one.csv", "two.ogma", "sub/three.txt", "sub dir/four.txt"] { std::fs::write(dir.join(f), "x").unwrap(); }
        let w = Workspace::init();
        let cmds: Vec<String> = w.impls().into_iter().map(|d| d.name).collect();
        let tys: Vec<String> = w.types().into_iter().map(|d| d.name).collect();
        let base = ["one.csv", "sub", "sub dir", "two.ogma"];
        let names = |v: &[Def], k: fn(&Kind) -> bool| { let mut v: Vec<String> = v.iter().filter(|d| k(&d.kind)).map(|d| d.name.clone()).collect(); v.sort(); v };
        let is_path = |k: &Kind| matches!(k, Kind::File | Kind::Dir);
        // (line, the directory whose entries are offered, commands, types)
        let rows: Vec<(&str, Option<Vec<&str>>, bool, bool)> = vec![
            ("open o", Some(base.to_vec()), true, false),
            ("open sub/", Some(vec!["three.txt"]), true, false),
            ("open sub/t", Some(vec!["three.txt"]), true, false),
            ("open sub/three.txt | save sub/", Some(vec!["three.txt"]), true, false),
            ("ls | ", None, true, false),
            ("ls | filter { ", None, true, false),
            ("filter { foo ", Some(base.to_vec()), true, false),
            ("filter { foo sub/three.txt ", Some(base.to_vec()), true, false),
            ("filter { foo 'sub dir/four.txt' ", Some(base.to_vec()), true, false),
            ("filter { foo 'sub dir/four.txt' sub/", Some(vec!["three.txt"]), true, false),
            ("def f (x:", None, false, true),
        ];
        for (line, paths, c, ty) in rows {
            rep.case(true, || format!("line {line:?}"), || {
                let got = completion::get(&w, line, Some(&dir)).ok_or("nothing is offered")?;
                if let Some(p) = &paths {
                    let g = names(&got, is_path);
                    if g != *p { return Err(format!("offers the paths {g:?} instead of {p:?}")); }
                }
                let g = names(&got, |k| matches!(k, Kind::Impl));
                let mut all = cmds.clone();
                all.sort();
                if c != (g == all) || !c && !g.is_empty() { return Err(format!("offers the commands {g:?}")); }
                let g = names(&got, |k| matches!(k, Kind::Type));
                let mut all = tys.clone();
                all.sort();
                if ty != (g == all) || !ty && !g.is_empty() { return Err(format!("offers the types {g:?}")); }
                Ok(())
            });
        }
        let mut r = rep.rng(6);
        for _ in 0..rep.n(300, 3000) {
            let args: String = (0..r.below(4)).map(|_| format!("{} ", r.pick(&["a", "'sub dir/x'", "\"it's\"", "'say \"hi'", "1", "é", "'a b'", "\"\"", "#t", "sub/three.txt", "--by", "$x"]))).collect();
            let (last, want): (&str, Vec<&str>) = r.pick(&[("", base.to_vec()), ("o", base.to_vec()), ("sub/", vec!["three.txt"]), ("sub/t", vec!["three.txt"]), ("nope/", base.to_vec()), ("sub", vec!["three.txt"])]).clone();
            let line = format!("filter {{ foo {args}{last}");
            rep.case(true, || format!("line {line:?}"), || match completion::get(&w, &line, Some(&dir)) {
                None => Err("nothing is offered".into()),
                Some(d) => { let g = names(&d, is_path); if g == want { Ok(()) } else { Err(format!("offers the paths {g:?} instead of {want:?}")) } }
            });
        }
        let mut r = rep.rng(4);
        let n = rep.n(1200, 20000);
        rep.bound(&format!("{} lines with known offers, 300 with arguments in either quotes before a path; {n} lines of up to 9 pieces of expressions and definitions, cut at every character: an answer", 11));
        for _ in 0..n {
            let s = pieces(&mut r);
            rep.case(true, || format!("line {s:?}"), || {
                for (i, _) in s.char_indices().chain(std::iter::once((s.len(), ' '))) { completion::get(&w, &s[..i], None); }
                Ok(())
            });
        }
    }
    fn pieces(r: &mut Rng) -> String {
        let parts = ["foo/", "ls ", "| ", "filter ", "{ ", "} ", "foo/", "/", "a/b", "$x ", "#t ", "#", "1.5 ", "--cols ", ":Num ", ":", "'q ", "\"s\" ", "def ", "def f ", "def-ty A ", "(x:Num) ", "get x", ".", "é ", "<Tab> ", "\\ ", "let $y ", "= ", "in ", "::", "def-ty T :: ", "A | B "];
        (0..r.below(9) + 1).map(|_| *r.pick(&parts)).collect()
    }
    pub fn nodes(rep: &mut Rep) {
        let w = Workspace::init();
        let mut r = rep.rng(5);
        let n = rep.n(4000, 60000);
        rep.bound(&format!("{n} lines of up to 9 pieces and whole definitions: the leaves in order, and the node at every byte"));
        let whole = ["def-ty Pair { a:Num bc:Table<Num Str> }", "def-ty Opt :: None | Some { x:Num y:Str } | Other {z:Pt}", "def foo Num (x:Num y) { + $x | filter $y --cols }", "def bar () { ls | let $a $b }", "\\ 3 | + {+ 1 2} #t | get:Num 'a'", "ls | filter { get a | = $b } | if #f 1 2"];
        for k in 0..n {
            let s = if k < whole.len() { whole[k].to_string() } else { pieces(&mut r) };
            rep.case(true, || format!("line {s:?}"), || {
                let c = match w.parse(&s) { Ok(c) => c, Err(_) => return Ok(()) };
                let leaves = c.append_leaves(vec![]);
                let head = s.trim_start().starts_with("def");
                if k < whole.len() {
                    let got: String = leaves.iter().map(|l| format!("{}={} ", l.tag.str(), l.ty.as_str())).collect();
                    let want = [
                        "def-ty=command Pair=type a=field Num=type bc=field Table=type Num=type parameter Str=type parameter ",
                        "def-ty=command Opt=type None=variant Some=variant x=field Num=type y=field Str=type Other=variant z=field Pt=type ",
                        "def=command foo=command Num=type x=parameter y=parameter +=command x=variable filter=command y=variable cols=flag ",
                        "def=command bar=command ls=command let=command a=variable b=variable ",
                        "\\=command 3=number +=command +=command 1=number 2=number #t=spec-literal get=command a=ident ",
                        "ls=command filter=command get=command a=ident ==command b=variable if=command #f=spec-literal 1=number 2=number ",
                    ][k];
                    if got != want { return Err(format!("the leaves are {got} instead of {want}")); }
                }
                for i in 0..s.len() + 1 {
                    let at: Vec<_> = leaves.iter().filter(|l| l.tag.start <= i && i < l.tag.end).map(|l| (l.tag.start, l.tag.end, l.ty)).collect();
                    match c.node_at_pos(i) {
                        None if !at.is_empty() => return Err(format!("nothing is found at {i}, where {:?} is", at[0])),
                        Some(n) if !at.contains(&(n.tag.start, n.tag.end, n.ty)) && !(head && n.ty == NodeType::Command && n.tag.start == 0) => return Err(format!("the node at {i} is {:?}", n.tag.str())),
                        _ => (),
                    }
                }
                Ok(())
            });
        }
    }
}
fn main() {
    let mut rep = support::Rep::new();
    match rep.pid.as_str() {
        "L01" => {
            vh::positions(&mut rep);
            vh::changes(&mut rep);
        }
        "L02" => vh::at_cursor(&mut rep),
        _ => {
            vh::definitions(&mut rep);
            vh::nodes(&mut rep);
        }
    }
    rep.finish()
}
