//! A parsed fragment borrows from its input and cannot outlive it; an owned copy can.
//! code: E0597
pub fn f() -> usize {
    let frag;
    {
        let input = String::from("<a>b</a>");
        let parsed = sgmlish::parse(&input).unwrap();
        frag = parsed; //~BAD
        frag = parsed.into_owned(); //~GOOD
    }
    frag.len()
}
