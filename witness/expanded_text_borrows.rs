//! Entity expansion borrows from the text it is given.
//! code: E0515
pub fn f() -> std::borrow::Cow<'static, str> {
    let text = String::from("a&#33;");
    let r = sgmlish::entities::expand_characters(&text).unwrap();
    r //~BAD
    r.into_owned().into() //~GOOD
}
