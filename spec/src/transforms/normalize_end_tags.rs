use crate::transforms::Transform;
use crate::{text, SgmlEvent, SgmlFragment};

#[derive(Clone, Debug, Eq, PartialEq, thiserror::Error)]
pub enum NormalizationError {
    #[error("unpaired end tag: </{0}>")]
    UnpairedEndTag(String),
    #[error("empty tags (<> and </>) are not supported")]
    EmptyTagNotSupported,
}

pub fn normalize_end_tags(mut fragment: SgmlFragment) -> Result<SgmlFragment, NormalizationError> {
    let mut transform = Transform::new();
    let mut stack = vec![];
    let mut next_insertion_point = fragment.len();
    let mut end_xml_empty_element = None;

    for (i, event) in fragment.iter_mut().enumerate().rev() {
        match event {
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty() => {
                return Err(NormalizationError::EmptyTagNotSupported);
            }
            SgmlEvent::OpenStartTag { name } => {
                let insertion_point = end_xml_empty_element.take().or_else(|| match stack.last() {
                    Some(end_name) if *end_name == name => {
                        stack.pop();
                        None
                    }
                    _ => Some(next_insertion_point),
                });
                if let Some(insertion_point) = insertion_point {
                    transform.insert_at(insertion_point, SgmlEvent::EndTag { name: name.clone() });
                }
                next_insertion_point = i;
            }
            SgmlEvent::XmlCloseEmptyElement => {
                *event = SgmlEvent::CloseStartTag;
                end_xml_empty_element = Some(i + 1);
            }
            SgmlEvent::EndTag { name } => {
                stack.push(name);
                next_insertion_point = i;
            }
            SgmlEvent::Character(text) => {
                if next_insertion_point == i + 1 && text::is_blank(text) {
                    next_insertion_point = i;
                }
            }
            _ => {}
        }
    }

    if let Some(end_name) = stack.last() {
        return Err(NormalizationError::UnpairedEndTag(str::to_owned(end_name)));
    }

    Ok(transform.apply(fragment))
}

