//! Owning an event detaches it from the input it borrows from.
//! code: E0505,E0597
pub fn f(input: String) -> sgmlish::SgmlEvent<'static> {
    let ev = {
        let frag = sgmlish::parse(&input).unwrap();
        frag.into_iter().next().unwrap()
    };
    let ev: sgmlish::SgmlEvent<'static> = ev; //~BAD
    let ev: sgmlish::SgmlEvent<'static> = ev.into_owned(); //~GOOD
    drop(input);
    ev
}
