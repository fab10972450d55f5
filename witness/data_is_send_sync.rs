//! Events and fragments are plain data, shareable between threads.
//! code: E0277
fn check<T: Send + Sync>() {}
pub fn f<'a>() {
    check::<std::rc::Rc<sgmlish::SgmlEvent<'a>>>(); //~BAD
    check::<sgmlish::SgmlEvent<'a>>(); //~GOOD
    check::<sgmlish::SgmlFragment<'a>>(); //~GOOD
    check::<sgmlish::marked_sections::MarkedSectionStatus>(); //~GOOD
    check::<sgmlish::parser::NameNormalization>(); //~GOOD
    check::<sgmlish::parser::MarkedSectionHandling>(); //~GOOD
}
