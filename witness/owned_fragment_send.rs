//! Owned fragments may be moved to another thread; borrowed ones must not escape their input's scope.
//! code: E0597
pub fn f() {
    let input = String::from("<a>b</a>");
    let frag = sgmlish::parse(&input).unwrap();
    let t = std::thread::spawn(move || frag.len()); //~BAD
    let frag = frag.into_owned(); //~GOOD
    let t = std::thread::spawn(move || frag.len()); //~GOOD
    let _ = t.join();
}
