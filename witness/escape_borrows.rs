//! The escaping adapter borrows its text.
//! code: E0515,E0597
pub fn f() -> impl std::fmt::Display {
    let text = String::from("a<b");
    sgmlish::text::escape(&text) //~BAD
    sgmlish::text::escape(&text).to_string() //~GOOD
}
