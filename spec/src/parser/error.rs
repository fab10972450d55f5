use std::fmt;
use std::ops::Deref;

#[derive(Debug)]
pub struct ContextualizedError<I> {
    pub input: I,
    pub char: Option<char>,
    pub error: Option<crate::Error>,
    pub context: Vec<(I, &'static str)>,
}

impl<I: Deref<Target = str>> ContextualizedError<I> {
    pub fn describe(&self, input: &I) -> String {
        let mut out = String::new();
        self.describe_to(input, &mut out).unwrap();
        out
    }

    pub fn describe_to<W: fmt::Write>(&self, input: &I, mut f: W) -> fmt::Result {
        if input.is_empty() {
            return f.write_str("parse error: input is empty");
        }

        let mut context = self
            .context
            .iter()
            .map(|(substring, ctx)| (ctx, LocatedLine::locate(input, substring)))
            .peekable();

        let location = LocatedLine::locate(input, &self.input);
        write!(f, "parse error ")?;
        if let Some((ctx, ..)) = context.next_if(|(_, ctxloc)| *ctxloc == location) {
            write!(f, "in {}, ", ctx)?;
        }
        write!(f, "at line {}:", location.line_number)?;
        if let Some(err) = &self.error {
            write!(f, " {}", err)?;
        }
        if let Some(c) = self.char {
            write!(f, " expected '{}', got ", c)?;
            match self.input.chars().next() {
                Some(' ' | '\t') => write!(f, "whitespace")?,
                Some('\r' | '\n') => write!(f, "end of line")?,
                Some(c) => write!(f, "'{}'", c.escape_default())?,
                None => write!(f, "end of input")?,
            }
        }
        writeln!(f, "\n{}", location)?;

        let mut last_loc = location;
        for (ctx, ctxloc) in context {
            if ctxloc == last_loc {
                // Avoid pointing multiple times to the same location
                continue;
            }
            writeln!(
                f,
                "From {ctx}, started at {lineref}line {number}:\n{line}",
                ctx = ctx,
                lineref = if ctxloc.line_number == last_loc.line_number {
                    "the same "
                } else {
                    ""
                },
                number = ctxloc.line_number,
                line = ctxloc,
            )?;
            last_loc = ctxloc;
        }

        Ok(())
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
struct LocatedLine<'a> {
    // The contents of the line, without trailing newline characters.
    line: &'a str,
    // Line number, starting at 1.
    line_number: usize,
    // Column number, starting at 1.
    column_number: usize,
}

impl<'a> LocatedLine<'a> {
    fn locate(input: &'a str, substring: &'a str) -> Self {
        use nom::Offset;

        let offset = input.offset(substring);
        let input_before = &input[..offset];

        let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
        let line_number = input_before.split('\n').count();
        let column_number = input[line_start_offset..offset].chars().count() + 1;

        LocatedLine {
            line: input[line_start_offset..].lines().next().unwrap_or(""),
            line_number,
            column_number,
        }
    }
}

impl<'a> fmt::Display for LocatedLine<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let skip_line_start = self.column_number.saturating_sub(40);
        let mut max_len = 80;

        let mut indices = self.line.char_indices().map(|(index, _)| index);
        let mut display_range = 0..self.line.len();
        if skip_line_start > 0 {
            display_range.start = indices.nth(skip_line_start + 3).unwrap();
            max_len -= 3;
        } else {
            indices.next();
        }
        if let Some(cut_pos) = indices.nth(max_len - 4) {
            if indices.nth(2).is_some() {
                display_range.end = cut_pos;
            }
        }

        if display_range.start > 0 {
            f.write_str("...")?;
        }
        f.write_str(&self.line[display_range.clone()])?;
        if display_range.end < self.line.len() {
            f.write_str("...")?;
        }

        write!(
            f,
            "\n{caret:>col$}",
            caret = "^",
            col = self.column_number - skip_line_start
        )
    }
}

impl<I> nom::error::ParseError<I> for ContextualizedError<I> {
    fn from_error_kind(input: I, _kind: nom::error::ErrorKind) -> Self {
        ContextualizedError {
            input,
            char: None,
            error: None,
            context: vec![],
        }
    }

    fn append(_input: I, _kind: nom::error::ErrorKind, other: Self) -> Self {
        other
    }

    fn from_char(input: I, c: char) -> Self {
        ContextualizedError {
            input,
            char: Some(c),
            error: None,
            context: vec![],
        }
    }
}

impl<I> nom::error::ContextError<I> for ContextualizedError<I> {
    fn add_context(input: I, ctx: &'static str, mut other: Self) -> Self {
        other.context.push((input, ctx));
        other
    }
}

impl<I> nom::error::FromExternalError<I, crate::Error> for ContextualizedError<I> {
    fn from_external_error(input: I, _kind: nom::error::ErrorKind, e: crate::Error) -> Self {
        ContextualizedError {
            input,
            char: None,
            error: Some(e),
            context: vec![],
        }
    }
}

