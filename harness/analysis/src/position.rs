//! Editor positions (UTF-16) <-> byte offsets, on the editor document and on the
//! engine's source registry, against a direct reading of the LSP definition.
use crate::sx;
use ruby_analysis::core::SourceFileId;
use ruby_analysis::core::SourcePosition;
use ruby_analysis::engine::AnalysisEngine;
use ruby_analysis::indexer::{RubyDocument, SourceDocument};

/// line/character of byte offset `o` (a char boundary), by definition
fn spec(text: &str, o: usize) -> (u32, u32) {
    let (mut line, mut ch, mut i) = (0u32, 0u32, 0usize);
    let b = text.as_bytes();
    while i < o {
        let x = b[i];
        if x == b'\n' {
            line += 1;
            ch = 0;
            i += 1;
        } else if x < 0x80 {
            ch += 1;
            i += 1;
        } else if x < 0xe0 {
            ch += 1;
            i += 2;
        } else if x < 0xf0 {
            ch += 1;
            i += 3;
        } else {
            ch += 2;
            i += 4;
        }
    }
    (line, ch)
}

/// byte offset of a position: lines past the end mean end of text, characters past
/// the end of a line mean the end of that line, half a surrogate pair rounds down
fn spec_back(text: &str, line: u32, ch: u32) -> usize {
    let b = text.as_bytes();
    let (mut l, mut i) = (0u32, 0usize);
    while l < line {
        match b[i..].iter().position(|x| *x == b'\n') {
            Some(k) => {
                i += k + 1;
                l += 1;
            }
            None => return b.len(),
        }
    }
    let mut c = 0u32;
    while i < b.len() && b[i] != b'\n' {
        let (n, u) = match b[i] {
            0..=0x7f => (1, 1),
            0x80..=0xdf => (2, 1),
            0xe0..=0xef => (3, 1),
            _ => (4, 2),
        };
        if c + u > ch {
            break;
        }
        c += u;
        i += n;
    }
    i
}

fn text(n: usize, shape: u64) -> String {
    let mut v: Vec<u8> = Vec::new();
    if shape & 1 != 0 {
        v.extend_from_slice("x\né😀y\n".as_bytes());
    }
    v.extend_from_slice(&sx::vec(n));
    if shape & 2 != 0 {
        v.extend_from_slice("\n😀z".as_bytes());
    }
    if shape & 4 != 0 {
        v.extend_from_slice(b"\n");
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            sx::assume(false);
            unreachable!()
        }
    }
}

fn boundary(b: &[u8], o: usize) -> bool {
    o == b.len() || (b[o] & 0xc0) != 0x80
}

#[no_mangle]
pub extern "C" fn h_position_offsets() {
    let n = sx::param(0, 4) as usize;
    let shape = sx::param(1, 0);
    let s = text(n, shape);
    let b = s.as_bytes();
    let doc = SourceDocument::new(&s, SourceFileId(3));
    let mut o = 0;
    while o <= b.len() {
        let got = doc.offset_to_line_character(&s, o);
        let mut f = o;
        while !boundary(b, f) {
            f -= 1;
        }
        let want = spec(&s, f);
        sx::check(got == want, "offset->position is the UTF-16 line/character of the offset");
        if f == o {
            let back = doc.line_character_to_offset(&s, got.0, got.1);
            sx::check(back == o, "position->offset inverts offset->position");
        } else {
            sx::cover("offset inside a character");
        }
        o += 1;
    }
    sx::check(
        doc.offset_to_line_character(&s, b.len() + 5) == spec(&s, b.len()),
        "offsets past the end mean the end",
    );
    if s.contains('\n') {
        sx::cover("several lines");
    }
    if n > 0 && !s.is_ascii() {
        sx::cover("non-ascii");
    }
}

#[no_mangle]
pub extern "C" fn h_position_back() {
    let n = sx::param(0, 4) as usize;
    let shape = sx::param(1, 0);
    let s = text(n, shape);
    let doc = SourceDocument::new(&s, SourceFileId(3));
    let line = sx::u32();
    let ch = sx::u32();
    let got = doc.line_character_to_offset(&s, line, ch);
    sx::check(got == spec_back(&s, line, ch), "position->offset clamps to the line");
    sx::check(got <= s.len(), "offset within the text");
    sx::cover("position converted");
}

/// the engine's own line index answers like the editor document
#[no_mangle]
pub extern "C" fn h_position_engine() {
    let n = sx::param(0, 4) as usize;
    let shape = sx::param(1, 0);
    let s = text(n, shape);
    let b = s.as_bytes();
    let mut engine = AnalysisEngine::new();
    let id = engine.register_file_borrowed("a.rb".into(), &s, ruby_analysis::core::SourceKind::Project);
    let f = engine.file(id).unwrap();
    let mut o = 0;
    while o <= b.len() {
        let got = f.byte_offset_to_line_character(o as u32);
        if boundary(b, o) {
            sx::check(got == Some(spec(&s, o)), "engine offset->position is the UTF-16 position");
        } else {
            sx::check(got.is_none(), "no position inside a character");
        }
        o += 1;
    }
    sx::check(f.byte_offset_to_line_character(b.len() as u32 + 1).is_none(), "no position past the end");
    sx::cover("engine positions");
}

/// after an edit only the new text counts
#[no_mangle]
pub extern "C" fn h_position_update() {
    let n = sx::param(0, 3) as usize;
    let s = text(n, 0);
    // a fixed previous text, or any text of the same or one byte more over {a, newline}
    let k = sx::choice(5) as usize;
    let old = if k < 3 {
        ["", "a\nb\n\nc", "é\n"][k].to_string()
    } else {
        (0..n + k - 3).map(|_| if sx::choice(2) == 0 { 'a' } else { '\n' }).collect()
    };
    let old = old.as_str();
    let mut doc = RubyDocument::new(url(), old.to_string(), 1);
    doc.update(s.clone(), 2);
    let mut o = 0;
    while o <= s.len() {
        if boundary(s.as_bytes(), o) {
            let p = doc.offset_to_position(o);
            sx::check((p.line, p.character) == spec(&s, o), "positions follow the new text");
            sx::check(doc.position_to_offset(p) == o, "offsets follow the new text");
        }
        o += 1;
    }
    sx::check(
        doc.position_to_offset(SourcePosition::new(1000, 0)) == s.len(),
        "past the last line is the end of the new text",
    );
    sx::cover("updated");
}

fn url() -> url::Url {
    url::Url::parse("file:///w/a.rb").unwrap()
}
