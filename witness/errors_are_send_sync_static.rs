//! Every public error type can cross threads and be boxed as a 'static error.
//! code: E0277
fn check<T: std::error::Error + Send + Sync + 'static>() {}
pub fn f() {
    check::<std::rc::Rc<str>>(); //~BAD
    check::<sgmlish::Error>(); //~GOOD
    check::<sgmlish::de::DeserializationError>(); //~GOOD
    check::<sgmlish::entities::EntityError>(); //~GOOD
    check::<sgmlish::transforms::NormalizationError>(); //~GOOD
}
