//! Entity closures are called through a shared reference: they cannot mutate what they capture.
//! code: E0594
pub fn f() -> sgmlish::Parser {
    let mut n = 0u32;
    sgmlish::Parser::builder().expand_entities(move |_| { n += 1; if n > 0 { Some("x") } else { None } }).build() //~BAD
    sgmlish::Parser::builder().expand_entities(move |_| { if n > 0 { Some("x") } else { None } }).build() //~GOOD
}
