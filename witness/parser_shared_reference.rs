//! Parsing needs only shared access to the parser: it keeps no per-parse state.
//! code: E0596
pub fn f(p: &sgmlish::Parser) -> usize {
    let q = &mut *p; //~BAD
    let q = p; //~GOOD
    let a = q.parse("<a>b</a>").unwrap();
    let b = p.parse("<c>d</c>").unwrap();
    a.len() + b.len()
}
