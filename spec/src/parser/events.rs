
use std::borrow::Cow;
use std::iter::{FromIterator, FusedIterator};
use std::{fmt, mem};

use nom::branch::alt;
use nom::combinator::{all_consuming, cut, map, recognize, value};
use nom::error::{context, ContextError, ErrorKind, FromExternalError, ParseError};
use nom::multi::{many0, many0_count, many1};
use nom::sequence::{terminated, tuple};
use nom::IResult;

use crate::marked_sections::MarkedSectionStatus;
use crate::{Error, SgmlEvent};

use super::raw::{self, comment_declaration, MarkedSectionEndHandling};
use super::util::{comments_and_spaces, strip_comments_and_spaces_after, strip_spaces_after};
use super::{MarkedSectionHandling, ParserConfig};

pub fn document_entity<'a, E>(
    input: &'a str,
    config: &ParserConfig,
) -> IResult<&'a str, impl Iterator<Item = SgmlEvent<'a>>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    all_consuming(map(
        tuple((
            comments_and_spaces,
            |input| prolog(input, config),
            context(
                "document content",
                cut(|input| content(input, config, MarkedSectionEndHandling::TreatAsText)),
            ),
            many0(strip_comments_and_spaces_after(|input| {
                processing_instruction(input, config)
            })),
        )),
        |(_, declarations, content, epilogue)| {
            declarations
                .into_iter()
                .chain(content)
                .chain(epilogue.into_iter().flatten())
        },
    ))(input)
}

pub fn prolog<'a, E>(
    input: &'a str,
    config: &ParserConfig,
) -> IResult<&'a str, Vec<SgmlEvent<'a>>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    context(
        "prolog",
        map(
            many0(strip_comments_and_spaces_after(alt((
                |input| markup_declaration(input, config),
                |input| marked_section_declaration(input, config),
                |input| processing_instruction(input, config),
            )))),
            |events| events.into_iter().flatten().collect(),
        ),
    )(input)
}

pub fn markup_declaration<'a, E>(
    input: &'a str,
    config: &ParserConfig,
) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    map(raw::markup_declaration, |(keyword, body)| {
        EventIter::cond(!config.ignore_markup_declarations, || {
            SgmlEvent::MarkupDeclaration {
                keyword: keyword.into(),
                body: body.into(),
            }
        })
    })(input)
}

pub fn marked_section_declaration<'a, E>(
    input: &'a str,
    config: &ParserConfig,
) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    context("marked section declaration", |input| {
        let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
        let status_keywords = config
            .parse_markup_declaration_text(raw_status_keywords)
            .map_err(unrecoverable)?;

        let status = match config
            .marked_section_handling
            .parse_keywords(&status_keywords)
        {
            Ok(status) => status,
            Err(keyword) => {
                use nom::{FindSubstring, Slice};
                let pos = raw_status_keywords
                    .find_substring(keyword)
                    .map(|pos| raw_status_keywords.slice(pos..))
                    // There's no match if the keyword came from a parameter entity expansion
                    .unwrap_or(raw_status_keywords);
                return Err(nom::Err::Failure(E::from_external_error(
                    pos,
                    ErrorKind::Tag,
                    Error::InvalidMarkedSectionKeyword(status_keywords.into_owned()),
                )));
            }
        };

        marked_section_body(rest, status_keywords, status, config)
    })(input)
}

pub fn marked_section_body<'a, E>(
    input: &'a str,
    status_keywords: Cow<'a, str>,
    status: MarkedSectionStatus,
    config: &ParserConfig,
) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    let marked_section_handling = config.marked_section_handling;

    match marked_section_handling {
        MarkedSectionHandling::KeepUnmodified => {
            let (rest, content) = match status {
                MarkedSectionStatus::Ignore => raw::marked_section_body_ignore(input),
                MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                MarkedSectionStatus::Include => terminated(
                    recognize(|input| {
                        content(input, config, MarkedSectionEndHandling::StopParsing)
                    }),
                    raw::marked_section_end,
                )(input),
            }?;
            Ok((
                rest,
                EventIter::once(SgmlEvent::MarkedSection {
                    status_keywords,
                    section: content.into(),
                }),
            ))
        }
        _ => match status {
            MarkedSectionStatus::Ignore => {
                map(raw::marked_section_body_ignore, |_| EventIter::empty())(input)
            }
            MarkedSectionStatus::CData => map(raw::marked_section_body_character_data, |content| {
                EventIter::once(SgmlEvent::Character(config.trim(content).into()))
            })(input),
            MarkedSectionStatus::RcData => {
                let (rest, content) = raw::marked_section_body_character_data(input)?;
                Ok((
                    rest,
                    EventIter::once(SgmlEvent::Character(
                        config
                            .parse_rcdata(config.trim(content))
                            .map_err(unrecoverable)?,
                    )),
                ))
            }
            MarkedSectionStatus::Include => terminated(
                map(
                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                    EventIter::from_iter,
                ),
                raw::marked_section_end,
            )(input),
        },
    }
}

pub fn processing_instruction<'a, E>(
    input: &'a str,
    config: &ParserConfig,
) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    map(raw::processing_instruction, |s| {
        EventIter::cond(!config.ignore_processing_instructions, || {
            SgmlEvent::ProcessingInstruction(Cow::from(s))
        })
    })(input)
}

pub fn content<'a, E>(
    input: &'a str,
    config: &ParserConfig,
    mse: MarkedSectionEndHandling,
) -> IResult<&'a str, impl Iterator<Item = SgmlEvent<'a>>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    map(
        many1(terminated(
            |input| content_item(input, config, mse),
            many0_count(comment_declaration),
        )),
        |items| items.into_iter().flatten(),
    )(input)
}

pub fn content_item<'a, E>(
    input: &'a str,
    config: &ParserConfig,
    mse: MarkedSectionEndHandling,
) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    alt((
        |input| text(input, config, mse),
        |input| start_tag(input, config),
        map(|input| end_tag(input, config), EventIter::once),
        |input| processing_instruction(input, config),
        |input| marked_section_declaration(input, config),
        // When all else fails, sinalize we expected at least opening a tag
        |input| Err(nom::Err::Error(E::from_char(input, '<'))),
    ))(input)
}

pub fn start_tag<'a, E>(input: &'a str, config: &ParserConfig) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    context(
        "start tag",
        alt((
            map(
                tuple((
                    strip_spaces_after(|input| open_start_tag(input, config)),
                    many0(strip_spaces_after(|input| attribute(input, config))),
                    cut(alt((xml_close_empty_element, close_start_tag))),
                )),
                EventIter::start_tag,
            ),
            empty_start_tag,
        )),
    )(input)
}

pub fn open_start_tag<'a, E>(
    input: &'a str,
    config: &ParserConfig,
) -> IResult<&'a str, SgmlEvent<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    map(raw::open_start_tag, |name| SgmlEvent::OpenStartTag {
        name: config.name_normalization.normalize(name.into()),
    })(input)
}

pub fn close_start_tag<'a, E>(input: &'a str) -> IResult<&'a str, SgmlEvent<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    value(SgmlEvent::CloseStartTag, raw::close_start_tag)(input)
}

pub fn xml_close_empty_element<'a, E>(input: &'a str) -> IResult<&'a str, SgmlEvent<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    value(
        SgmlEvent::XmlCloseEmptyElement,
        raw::xml_close_empty_element,
    )(input)
}

pub fn empty_start_tag<'a, E>(input: &'a str) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    map(raw::empty_start_tag, |_| {
        EventIter::start_tag((
            SgmlEvent::OpenStartTag { name: "".into() },
            vec![],
            SgmlEvent::CloseStartTag,
        ))
    })(input)
}

pub fn attribute<'a, E>(input: &'a str, config: &ParserConfig) -> IResult<&'a str, SgmlEvent<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    map(
        |input| {
            raw::attribute_parse_value(input, |value, quoted| {
                if quoted {
                    config.parse_rcdata(value)
                } else {
                    Ok(value.into())
                }
            })
        },
        |(name, value)| SgmlEvent::Attribute {
            name: config.name_normalization.normalize(name.into()),
            value,
        },
    )(input)
}

fn end_tag<'a, E>(input: &'a str, config: &ParserConfig) -> IResult<&'a str, SgmlEvent<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str>,
{
    map(raw::end_tag, |name| SgmlEvent::EndTag {
        name: config
            .name_normalization
            .normalize(name.unwrap_or_default().into()),
    })(input)
}

pub fn text<'a, E>(
    input: &'a str,
    config: &ParserConfig,
    mse: MarkedSectionEndHandling,
) -> IResult<&'a str, EventIter<'a>, E>
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
{
    let (rest, text) = raw::text(input, mse)?;
    let s = config.trim(text);
    if s.is_empty() {
        return Ok((rest, EventIter::empty()));
    }
    Ok((
        rest,
        EventIter::once(SgmlEvent::Character(
            config.parse_rcdata(s).map_err(unrecoverable)?,
        )),
    ))
}

fn unrecoverable<E>(err: nom::Err<E>) -> nom::Err<E> {
    match err {
        nom::Err::Error(err) => nom::Err::Failure(err),
        err => err,
    }
}

#[derive(Eq, PartialEq)]
pub struct EventIter<'a> {
    start: Option<SgmlEvent<'a>>,
    middle: Vec<SgmlEvent<'a>>,
    end: Option<SgmlEvent<'a>>,
    middle_next: usize,
}

impl<'a> EventIter<'a> {
    const fn empty() -> Self {
        EventIter {
            start: None,
            middle: Vec::new(),
            end: None,
            middle_next: 0,
        }
    }

    fn once(event: SgmlEvent<'a>) -> Self {
        EventIter {
            start: Some(event),
            middle: Vec::new(),
            end: None,
            middle_next: 0,
        }
    }

    fn cond(condition: bool, event: impl FnOnce() -> SgmlEvent<'a>) -> Self {
        if condition {
            EventIter::once(event())
        } else {
            EventIter::empty()
        }
    }

    fn start_tag((start, middle, end): (SgmlEvent<'a>, Vec<SgmlEvent<'a>>, SgmlEvent<'a>)) -> Self {
        EventIter {
            start: Some(start),
            middle,
            end: Some(end),
            middle_next: 0,
        }
    }
}

impl<'a> Iterator for EventIter<'a> {
    type Item = SgmlEvent<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        if let Some(event) = self.start.take() {
            return Some(event);
        }

        if let Some(event) = self.middle.get_mut(self.middle_next) {
            self.middle_next += 1;
            return Some(mem::replace(event, SgmlEvent::XmlCloseEmptyElement));
        }

        if let Some(event) = self.end.take() {
            return Some(event);
        }

        None
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }

    // What a type that does not say otherwise gets
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn count(mut self) -> usize {
        let mut n = 0;
        while self.next().is_some() {
            n += 1;
        }
        n
    }

    fn last(mut self) -> Option<Self::Item> {
        let mut last = None;
        while let Some(x) = self.next() {
            last = Some(x);
        }
        last
    }

    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        while let Some(x) = self.next() {
            acc = f(acc, x);
        }
        acc
    }
}

impl ExactSizeIterator for EventIter<'_> {
    fn len(&self) -> usize {
        // Overflow: `middle_next` stops incrementing as soon as `middle_next == middle.len()`
        let middle_remaining = self.middle.len() - self.middle_next;
        self.start.is_some() as usize + middle_remaining + self.end.is_some() as usize
    }
}

impl<'a> FromIterator<SgmlEvent<'a>> for EventIter<'a> {
    fn from_iter<T>(iter: T) -> Self
    where
        T: IntoIterator<Item = SgmlEvent<'a>>,
    {
        EventIter {
            start: None,
            middle: Vec::from_iter(iter),
            end: None,
            middle_next: 0,
        }
    }
}

impl fmt::Debug for EventIter<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("EventIter(")?;
        let mut list = f.debug_list();
        if let Some(event) = &self.start {
            list.entry(event);
        }
        if let Some(events) = self.middle.get(self.middle_next..) {
            list.entries(events);
        }
        if let Some(event) = &self.end {
            list.entry(event);
        }
        list.finish()?;
        f.write_str(")")
    }
}

impl FusedIterator for EventIter<'_> {}

