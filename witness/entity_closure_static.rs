//! A parser keeps its entity closure, so the closure must not borrow from a shorter scope.
//! code: E0373,E0597
pub fn f() -> sgmlish::Parser {
    let p;
    {
        let name = String::from("lt");
        let owned = name.clone();
        p = sgmlish::Parser::builder().expand_entities(|e| if e == name.as_str() { Some("<") } else { None }).build(); //~BAD
        p = sgmlish::Parser::builder().expand_entities(move |e| if e == owned.as_str() { Some("<") } else { None }).build(); //~GOOD
        let _ = &name;
    }
    p
}
