
use nom::branch::alt;
use nom::bytes::complete::{is_not, tag, take_till, take_while};
use nom::character::complete::{char, none_of, one_of, satisfy};
use nom::combinator::{cut, map, not, opt, peek, recognize, verify};
use nom::error::{context, ContextError, ErrorKind, ParseError};
use nom::multi::many0_count;
use nom::sequence::{delimited, pair, preceded, terminated, tuple};
use nom::IResult;

use crate::text::is_sgml_whitespace;

use super::util::{spaces, strip_spaces_after, strip_spaces_around, take_until_terminated};

pub fn comment_declaration<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    context(
        "comment declaration",
        recognize(tuple((
            tag("<!"),
            peek(one_of("->")),
            opt(preceded(comment, many0_count(preceded(spaces, comment)))),
            context(r##"comment declaration close ("-->")"##, cut(char('>'))),
        ))),
    )(input)
}

pub fn comment<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    preceded(
        tag("--"),
        take_until_terminated(r##"comment declaration close ("-->")"##, "--"),
    )(input)
}

pub fn markup_declaration<'a, E>(input: &'a str) -> IResult<&'a str, (&'a str, &'a str), E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    context(
        "markup declaration",
        tuple((
            preceded(tag("<!"), name),
            cut(terminated(
                strip_spaces_around(recognize(many0_count(preceded(
                    spaces,
                    alt((
                        comment,
                        quoted_attribute_value,
                        declaration_subset,
                        // Accept single "-"
                        terminated(tag("-"), not(tag("-"))),
                        is_not("<>\"'[- \n\r\t"),
                    )),
                )))),
                char('>'),
            )),
        )),
    )(input)
}

fn declaration_subset<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    context(
        "declaration subset",
        delimited(
            char('['),
            recognize(many0_count(alt((
                comment,
                quoted_attribute_value,
                declaration_subset,
                recognize(markup_declaration),
                is_not("<>\"'[]-"),
            )))),
            cut(char(']')),
        ),
    )(input)
}

const MARKED_SECTION_START: &str = "<![";
const MARKED_SECTION_END: &str = "]]>";

pub fn marked_section_start_and_keywords<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    preceded(
        tag(MARKED_SECTION_START),
        cut(terminated(
            map(
                take_till(|c| matches!(c, '[' | ']' | '<' | '>' | '!')),
                |s: &str| s.trim_matches(is_sgml_whitespace),
            ),
            char('['),
        )),
    )(input)
}

pub fn marked_section_body_character_data<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    take_until_terminated(r##"marked section end ("]]>")"##, MARKED_SECTION_END)(input)
}

pub fn marked_section_body_ignore<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    use nom::{FindSubstring, Slice};
    // Nested pairs are tracked in a list rather than with recursion,
    // so that the input can't exhaust the call stack
    let mut open_pairs = vec![];
    let mut rest = input;
    loop {
        let (close_suffix, close_match) =
            marked_section_body_character_data(rest).map_err(|err: nom::Err<E>| {
                open_pairs.iter().rev().fold(err, |err, &pair| {
                    err.map(|e| E::add_context(pair, "nested marked section pair", e))
                })
            })?;
        if let Some(n) = close_match.find_substring(MARKED_SECTION_START) {
            rest = rest.slice(n + MARKED_SECTION_START.len()..);
            open_pairs.push(rest);
        } else if open_pairs.pop().is_some() {
            rest = close_suffix;
        } else {
            return Ok((
                close_suffix,
                input.slice(..input.len() - close_suffix.len() - MARKED_SECTION_END.len()),
            ));
        }
    }
}

pub fn marked_section_end<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    tag(MARKED_SECTION_END)(input)
}

pub fn processing_instruction<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    context(
        "processing instruction",
        recognize(preceded(
            tag("<?"),
            take_until_terminated(r##"processing instruction end (">")"##, ">"),
        )),
    )(input)
}

pub fn text<'a, E>(input: &'a str, mse: MarkedSectionEndHandling) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    verify(
        recognize(pair(
            opt(|input| plain_text(input, mse)),
            many0_count(tuple((
                tag("<"),
                not(alt((
                    tag("?"),
                    tag("!-"),
                    tag("!["),
                    preceded(tag("!"), name_start),
                    // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
                    preceded(opt(tag("/")), alt((name_start, tag(">")))),
                ))),
                opt(|input| plain_text(input, mse)),
            ))),
        )),
        |s: &str| !s.is_empty(),
    )(input)
}

pub fn plain_text<'a, E>(
    input: &'a str,
    mse: MarkedSectionEndHandling,
) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    use nom::{FindSubstring, InputTake};
    let next_tag = input.find_substring("<").unwrap_or(input.len());
    let split_pos = match mse {
        MarkedSectionEndHandling::StopParsing => input
            .find_substring("]]>")
            .unwrap_or(next_tag)
            .min(next_tag),
        MarkedSectionEndHandling::TreatAsText => next_tag,
    };
    if split_pos == 0 {
        Err(nom::Err::Error(E::from_error_kind(
            input,
            ErrorKind::TakeUntil,
        )))
    } else {
        Ok(input.take_split(split_pos))
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum MarkedSectionEndHandling {
    TreatAsText,
    StopParsing,
}

pub fn open_start_tag<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    preceded(char('<'), name)(input)
}

pub fn close_start_tag<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    recognize(char('>'))(input)
}

pub fn xml_close_empty_element<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    tag("/>")(input)
}

pub fn empty_start_tag<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    tag("<>")(input)
}

pub fn attribute<'a, E>(input: &'a str) -> IResult<&'a str, (&'a str, Option<&'a str>), E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    attribute_parse_value(input, |value, _quoted| Ok(value))
}

pub fn attribute_parse_value<'a, F, T, E>(
    input: &'a str,
    mut f: F,
) -> IResult<&'a str, (&'a str, Option<T>), E>
where
    F: FnMut(&'a str, bool) -> Result<T, nom::Err<E>>,
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    context(
        "attribute",
        pair(
            name,
            opt(preceded(
                strip_spaces_around(char('=')),
                context(
                    "attribute value",
                    cut(|input| {
                        let (rest, (value, quoted)) = attribute_value(input)?;
                        Ok((rest, f(value, quoted)?))
                    }),
                ),
            )),
        ),
    )(input)
}

pub fn attribute_value<'a, E>(input: &'a str) -> IResult<&'a str, (&'a str, bool), E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    alt((
        map(unquoted_attribute_value, |value| (value, false)),
        map(quoted_attribute_value, |value| (value, true)),
    ))(input)
}

pub fn unquoted_attribute_value<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    preceded(peek(none_of("\"'")), is_not("\"'> \t\r\n"))(input)
}

pub fn quoted_attribute_value<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    let delimited_by =
        |c, terminator, ctx| preceded(char(c), take_until_terminated(ctx, terminator));
    alt((
        delimited_by('\'', "'", "closing '"),
        delimited_by('"', "\"", "closing \""),
    ))(input)
}

pub fn end_tag<'a, E>(input: &'a str) -> IResult<&'a str, Option<&'a str>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    context(
        "end tag",
        delimited(tag("</"), opt(strip_spaces_after(name)), cut(char('>'))),
    )(input)
}

pub fn name<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    recognize(terminated(name_start, take_while(is_name_char)))(input)
}

pub fn name_start<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    recognize(satisfy(is_name_start_char))(input)
}

pub fn is_name_start_char(c: char) -> bool {
    c.is_alphabetic()
}

pub fn is_name_char(c: char) -> bool {
    // Using LCNMCHAR and UCNMCHAR as defined by HTML4
    c.is_alphanumeric() || matches!(c, '.' | '-' | '_' | ':')
}

