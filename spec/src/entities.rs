
use std::borrow::Cow;
use std::char;
use std::ops::Range;

use nom::branch::alt;
use nom::bytes::complete::{tag, take_while1};
use nom::character::complete::digit1;
use nom::combinator::{consumed, map, opt, recognize};
use nom::sequence::{preceded, terminated};
use nom::IResult;

use crate::parser::raw::{is_name_char, name};

pub type Result<T = ()> = std::result::Result<T, EntityError>;

#[derive(Clone, Debug, Eq, PartialEq, thiserror::Error)]
#[error("entity '{entity}' is not defined")]
pub struct EntityError {
    pub entity: String,
    pub position: Range<usize>,
}

pub fn expand_characters(text: &str) -> Result<Cow<str>> {
    expand_entities(text, |_| None::<&str>)
}

pub fn expand_entities<F, T>(text: &str, f: F) -> Result<Cow<str>>
where
    F: FnMut(&str) -> Option<T>,
    T: AsRef<str>,
{
    expand_entities_with(text, "&", entity_or_char_ref, f)
}

pub fn expand_parameter_entities<F, T>(text: &str, f: F) -> Result<Cow<str>>
where
    F: FnMut(&str) -> Option<T>,
    T: AsRef<str>,
{
    expand_entities_with(text, "%", entity_ref, f)
}

fn expand_entities_with<'a, M, F, T>(
    text: &'a str,
    prefix: &str,
    matcher: M,
    mut f: F,
) -> Result<Cow<'a, str>>
where
    M: FnMut(&str) -> IResult<&str, EntityRef>,
    F: FnMut(&'a str) -> Option<T>,
    T: AsRef<str>,
{
    // Suffix the matcher with optional `;`
    let mut matcher = terminated(matcher, opt(tag(";")));

    let mut remainder = text;
    let mut out = String::new();

    while let Some(position) = remainder.find(prefix) {
        let (mid, candidate) = remainder.split_at(position);
        out.push_str(mid);
        match matcher(&candidate[prefix.len()..]) {
            Ok((after, EntityRef::Entity(name))) => {
                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?
                        .as_ref(),
                );
                remainder = after;
            }
            Ok((after, EntityRef::Char(c))) => {
                out.push(c);
                remainder = after;
            }
            Err(_) => {
                out.push_str(prefix);
                remainder = &candidate[prefix.len()..];
            }
        }
    }

    if remainder.len() == text.len() {
        return Ok(text.into());
    }

    out.push_str(remainder);
    Ok(out.into())
}

fn entity_or_char_ref(input: &str) -> IResult<&str, EntityRef> {
    alt((char_ref, entity_ref))(input)
}

fn char_ref(input: &str) -> IResult<&str, EntityRef> {
    map(
        consumed(preceded(
            tag("#"),
            alt((
                map(digit1, |code: &str| code.parse().ok()),
                // Hex escape codes are actually only valid in XML, but welp
                preceded(
                    tag("x"),
                    map(take_while1(is_name_char), |code| {
                        u32::from_str_radix(code, 16).ok()
                    }),
                ),
            )),
        )),
        |(raw, code)| {
            code.and_then(char::from_u32)
                .map(EntityRef::Char)
                .unwrap_or_else(|| EntityRef::Entity(raw))
        },
    )(input)
}

fn entity_ref(input: &str) -> IResult<&str, EntityRef> {
    map(recognize(preceded(opt(tag("#")), name)), EntityRef::Entity)(input)
}

enum EntityRef<'a> {
    Entity(&'a str),
    Char(char),
}

