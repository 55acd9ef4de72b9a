extern crate proc_macro;
use proc_macro::*;
#[proc_macro_attribute]
pub fn quickcheck(_: TokenStream, item: TokenStream) -> TokenStream {
    let s = item.to_string();
    let sig = &s[s.find("fn ").unwrap() + 3..];
    let name = sig[..sig.find('(').unwrap()].trim().to_string();
    let args = &sig[sig.find('(').unwrap() + 1..sig.find(')').unwrap()];
    let n = args.split(',').filter(|x| x.contains(':')).count();
    let ret = sig[sig.find(')').unwrap() + 1..sig.find('{').unwrap()].trim().trim_start_matches("->").trim().to_string();
    let tys: Vec<_> = args.split(',').filter(|x| x.contains(':')).map(|x| x.split(':').nth(1).unwrap().trim().to_string()).collect();
    let _ = n;
    format!("#[test] fn {name}() {{ {s} ::quickcheck::quickcheck({name} as fn({}) -> {}) }}", tys.join(","), if ret.is_empty() { "()" } else { &ret }).parse().unwrap()
}
