//! Detailed errors point into the input and cannot outlive it; flattened errors can.
//! code: E0597
pub fn f() -> String {
    let err;
    {
        let input = String::from("<a");
        err = sgmlish::Parser::new().parse_with_detailed_errors::<sgmlish::parser::ContextualizedError<&str>>(&input).map(|_| ()).unwrap_err(); //~BAD
        err = sgmlish::Parser::new().parse(&input).map(|_| ()).unwrap_err(); //~GOOD
    }
    format!("{:?}", err)
}
