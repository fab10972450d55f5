//! Deserialising consumes the fragment, so one parse result is never consumed twice by accident.
//! code: E0382
pub fn f() -> usize {
    let frag = sgmlish::parse("<a>b</a>").unwrap();
    let s = sgmlish::from_fragment::<String>(frag).unwrap(); //~BAD
    let s = sgmlish::from_fragment::<String>(frag.clone()).unwrap(); //~GOOD
    frag.len() + s.len()
}
