//! An independent model of texts, positions and edits as the plugin guide defines them.

use crate::tape::Src;
use serde_json::{json, Value};

pub type Text = Vec<char>;

pub fn to_text(s: &str) -> Text {
    s.chars().collect()
}

pub fn to_string(t: &[char]) -> String {
    t.iter().collect()
}

/// Line and character of an offset; only '\n' ends a line.
pub fn pos_of(t: &[char], offset: usize) -> (usize, usize) {
    assert!(offset <= t.len());
    let line = t[..offset].iter().filter(|c| **c == '\n').count();
    let start = t[..offset]
        .iter()
        .rposition(|c| *c == '\n')
        .map_or(0, |p| p + 1);
    (line, offset - start)
}

/// Offset of a position; None if there is no such position.
pub fn offset_of(t: &[char], line: usize, character: usize) -> Option<usize> {
    let mut start = 0;
    for _ in 0..line {
        let p = t[start..].iter().position(|c| *c == '\n')?;
        start += p + 1;
    }
    let len = t[start..]
        .iter()
        .position(|c| *c == '\n')
        .unwrap_or(t.len() - start);
    if character > len {
        return None;
    }
    Some(start + character)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Op {
    pub start: (usize, usize),
    pub end: (usize, usize),
    pub text: String,
}

impl Op {
    pub fn json(&self) -> Value {
        json!({"range": {"start": {"line": self.start.0, "character": self.start.1},
                          "end": {"line": self.end.0, "character": self.end.1}},
                "replacement": self.text})
    }
}

pub fn parse_delta(v: &Value) -> Option<Vec<Op>> {
    let pos = |p: &Value| -> Option<(usize, usize)> {
        Some((p["line"].as_u64()? as usize, p["character"].as_u64()? as usize))
    };
    v.as_array()?
        .iter()
        .map(|op| {
            Some(Op {
                start: pos(&op["range"]["start"])?,
                end: pos(&op["range"]["end"])?,
                text: op["replacement"].as_str()?.to_string(),
            })
        })
        .collect()
}

/// Applies all operations relative to the text before the edit.
pub fn apply(t: &[char], ops: &[Op]) -> Result<Text, String> {
    let mut spans = vec![];
    for (i, op) in ops.iter().enumerate() {
        let s = offset_of(t, op.start.0, op.start.1)
            .ok_or_else(|| format!("start {:?} is not in the text", op.start))?;
        let e = offset_of(t, op.end.0, op.end.1)
            .ok_or_else(|| format!("end {:?} is not in the text", op.end))?;
        if e < s {
            return Err(format!("range {:?}-{:?} is backwards", op.start, op.end));
        }
        spans.push((s, e, i));
    }
    // Insertions before a replacement that starts at the same place come first.
    spans.sort_by_key(|(s, e, i)| (*s, *e != *s, *i));
    let mut out = Text::new();
    let mut at = 0;
    for (s, e, i) in spans {
        if s < at {
            return Err("ranges overlap".into());
        }
        out.extend_from_slice(&t[at..s]);
        out.extend(ops[i].text.chars());
        at = e;
    }
    out.extend_from_slice(&t[at..]);
    Ok(out)
}

/// The single operation that replaces `del` characters at `at`.
pub fn splice_op(t: &[char], at: usize, del: usize, ins: &str) -> Op {
    Op {
        start: pos_of(t, at),
        end: pos_of(t, at + del),
        text: ins.to_string(),
    }
}

pub fn splice(t: &mut Text, at: usize, del: usize, ins: &str) {
    t.splice(at..at + del, ins.chars());
}

/// Characters that are interesting for line and column counting.
pub const ODD: &[char] = &[
    '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\t', ' ', '\u{0}', '\u{7f}',
    'ä', 'é', '\u{301}', '\u{200d}', '\u{feff}', '中', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}',
    '😀', '🥕', '🏳', '\u{10000}', '\u{10ffff}', '"', '\\', '/', '{', '~',
];

pub fn gen_char(src: &mut Src) -> char {
    match src.weighted(&[6, 3, 4, 2]) {
        0 => *src.pick(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']),
        1 => '\n',
        2 => *src.pick(ODD),
        _ => loop {
            // Any scalar value.
            if let Some(c) = char::from_u32(src.below(0x11_0000) as u32) {
                break c;
            }
        },
    }
}

pub fn gen_string(src: &mut Src, max: usize) -> String {
    let n = src.usize(max + 1);
    (0..n).map(|_| gen_char(src)).collect()
}

/// Plain text: letters, newlines and a few multi-byte characters.
pub fn gen_plain(src: &mut Src, max: usize) -> String {
    let n = src.usize(max + 1);
    (0..n)
        .map(|_| *src.pick(&['a', 'b', 'c', 'x', '\n', ' ', 'ü', '🥕', '中']))
        .collect()
}

/// Position and length of a random splice in a text of `len` characters.
pub fn gen_splice(src: &mut Src, len: usize) -> (usize, usize) {
    // Ends of the text are more interesting than the middle.
    let at = match src.weighted(&[1, 1, 3]) {
        0 => 0,
        1 => len,
        _ => src.usize(len + 1),
    };
    let rest = len - at;
    let del = match src.weighted(&[5, 3, 1]) {
        0 => 0,
        1 => src.usize(rest.min(4) + 1),
        _ => rest,
    };
    (at, del)
}
