//! ERB templates: the Ruby view of a template keeps every byte offset and contains
//! exactly the Ruby tag bodies.
use crate::sx;
use ruby_analysis::core::SourcePosition;
use ruby_analysis::indexer::{mask_erb, EmbeddedRuby, RubyDocument};

/// which bytes are Ruby, by a left-to-right reading of the template, as a bit per byte
struct Spec {
    ruby: Vec<bool>,
    term: Vec<bool>,
    unclosed: Option<usize>,
}

fn at(b: &[u8], i: usize, a: u8, c: u8) -> bool {
    i + 1 < b.len() && b[i] == a && b[i + 1] == c
}

fn spec(b: &[u8]) -> Spec {
    let n = b.len();
    let mut r = Spec { ruby: vec![false; n], term: vec![false; n], unclosed: None };
    let mut i = 0;
    while i < n {
        if !at(b, i, b'<', b'%') {
            i += 1;
            continue;
        }
        let open = i;
        // the byte after `<%` is the tag's marker and cannot begin its terminator
        let mut j = open + 3;
        while j < n && !at(b, j, b'%', b'>') {
            j += 1;
        }
        if j >= n {
            r.unclosed = Some(open);
            break;
        }
        let m = b[open + 2];
        if m != b'%' && m != b'#' {
            let mut s = open + 2;
            if b[s] == b'-' {
                s += 1;
            }
            if b[s] == b'=' {
                s += 1;
            }
            let mut e = j;
            if e > s && b[e - 1] == b'-' {
                e -= 1;
            }
            if s < e {
                let mut k = s;
                while k < e {
                    r.ruby[k] = true;
                    k += 1;
                }
                r.term[j] = true;
            }
        }
        i = j + 2;
    }
    r
}

fn judge(t: &str, e: &EmbeddedRuby) {
    let b = t.as_bytes();
    let m = e.source().as_bytes();
    sx::check(m.len() == b.len(), "the Ruby view keeps the template's length");
    let s = spec(b);
    let mut i = 0;
    let mut any = false;
    while i < b.len() && i < m.len() {
        if s.ruby[i] {
            any = true;
            sx::check(m[i] == b[i], "Ruby bytes are kept in place");
        } else if b[i] == b'\n' || b[i] == b'\r' {
            sx::check(m[i] == b[i], "line breaks are kept in place");
        } else {
            sx::check(
                m[i] == b' ' || (s.term[i] && m[i] == b';'),
                "bytes outside Ruby tags are blank",
            );
        }
        if s.term[i] {
            sx::check(m[i] == b';', "each Ruby tag ends a statement");
        }
        sx::check(e.is_ruby_offset(i) == s.ruby[i], "an offset is Ruby exactly inside a tag body");
        i += 1;
    }
    sx::check(!e.is_ruby_offset(b.len()), "the end of the template is not Ruby");
    sx::check(e.unclosed_tag_offset() == s.unclosed, "the unclosed tag is reported");
    if any {
        sx::cover("ruby body");
    }
    if s.unclosed.is_some() {
        sx::cover("unclosed tag");
    }
}

fn utf8(v: Vec<u8>) -> String {
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            sx::assume(false);
            unreachable!()
        }
    }
}

/// fixed pieces around symbolic bytes
fn template(shape: u64, n: usize) -> String {
    let mut v: Vec<u8> = Vec::new();
    let sym = sx::vec(n);
    match shape {
        0 => v.extend_from_slice(&sym),
        1 => {
            v.extend_from_slice(b"<%");
            v.extend_from_slice(&sym);
            v.extend_from_slice(b"%>");
        }
        2 => {
            let k = n / 2;
            v.extend_from_slice(b"a<%");
            v.extend_from_slice(&sym[..k]);
            v.extend_from_slice(b"%>\n<%= b");
            v.extend_from_slice(&sym[k..]);
            v.extend_from_slice("é-%>\r\n".as_bytes());
        }
        3 => {
            v.extend_from_slice(b"<%# c %>");
            v.extend_from_slice(&sym);
            v.extend_from_slice(b"x %>;<%-y-%>");
        }
        _ => {
            v.extend_from_slice(b"<% if x %>\n<p>");
            v.extend_from_slice(&sym);
            v.extend_from_slice(b"</p><%%q%><% end %>");
        }
    }
    utf8(v)
}

#[no_mangle]
pub extern "C" fn h_erb_mask() {
    let t = template(sx::param(1, 0), sx::param(0, 5) as usize);
    let e = mask_erb(&t);
    judge(&t, &e);
}

/// tag-alphabet templates: longer, every byte one of the bytes that matter
#[no_mangle]
pub extern "C" fn h_erb_tags() {
    let n = sx::param(0, 8) as usize;
    let t = sx::ascii(n, b"<%>#=-a\n");
    let e = mask_erb(&t);
    judge(&t, &e);
}

/// the editor document: analysis text, position queries and edits
#[no_mangle]
pub extern "C" fn h_erb_document() {
    let t = template(sx::param(1, 0), sx::param(0, 4) as usize);
    let uri = url::Url::parse(["file:///v/a.html.erb", "file:///v/a.rhtml", "file:///v/a.rb"][sx::choice(3) as usize]).unwrap();
    let is_erb = !uri.path().ends_with(".rb");
    let mut d = RubyDocument::new(uri, "<% old %>\n".to_string(), 1);
    if sx::bool() {
        d = RubyDocument::new(d.uri.clone(), t.clone(), 1);
    } else {
        d.update(t.clone(), 2);
    }
    sx::check(d.is_embedded() == is_erb, "template-ness follows the file name");
    if !is_erb {
        sx::check(d.analysis_content() == t, "Ruby files are analysed as they are");
        return;
    }
    let s = spec(t.as_bytes());
    sx::check(d.analysis_content().len() == t.len(), "analysis text keeps the length");
    let mut i = 0;
    while i < t.len() {
        if s.ruby[i] {
            sx::check(d.analysis_content().as_bytes()[i] == t.as_bytes()[i], "Ruby bytes kept");
        }
        if (t.as_bytes()[i] & 0xc0) != 0x80 && t.as_bytes()[i] != b'\n' {
            let p: SourcePosition = d.offset_to_position(i);
            sx::check(d.is_ruby_position(p) == s.ruby[i], "a position is Ruby exactly inside a tag body");
        }
        i += 1;
    }
    sx::cover("erb document");
}
