//! Borrowed values deserialised from a fragment may live as long as the input, and no longer.
//! code: E0597
pub fn f() -> usize {
    let outer = String::from("<a>b</a>");
    let s: &str;
    {
        let inner = String::from("<a>b</a>");
        let frag = sgmlish::parse(&inner).unwrap(); //~BAD
        let frag = sgmlish::parse(&outer).unwrap(); //~GOOD
        let _ = &inner;
        s = sgmlish::from_fragment::<&str>(frag).unwrap();
    }
    s.len()
}
