//! Normalising end tags consumes the fragment it rewrites.
//! code: E0382
pub fn f() -> usize {
    let frag = sgmlish::parse("<a>b").unwrap();
    let n = sgmlish::transforms::normalize_end_tags(frag).unwrap(); //~BAD
    let n = sgmlish::transforms::normalize_end_tags(frag.clone()).unwrap(); //~GOOD
    frag.len() + n.len()
}
