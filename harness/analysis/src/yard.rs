//! C16: types in YARD comments are read as written.
//!
//! A type list is built from a small grammar with the place of every entry known
//! by construction; what the parser, the cursor lookup and the converter make of
//! the text is judged against that construction.
use crate::sx;
use ruby_analysis::core::*;
use ruby_analysis::indexer::yard::converter::YardTypeConverter;
use ruby_analysis::indexer::yard::parser::YardParser;

#[derive(Clone)]
enum Ty {
    /// a class, by its path
    Class(Vec<String>),
    Nil,
    Bool,
    Array(Vec<Ty>),
    /// `Hash<K, V>`
    Pair(Box<Ty>, Box<Ty>),
    /// `Hash{K.. => V..}`
    Map(Vec<Ty>, Vec<Ty>),
    /// any other generic class: `X<..>`
    Generic(String, Vec<Ty>),
}

fn letter(lo: u8, hi: u8) -> String {
    if sx::param(7, 1) == 0 {
        // names are interned: one of two, by cases
        return unsafe { String::from_utf8_unchecked(vec![lo + sx::choice(2) as u8]) };
    }
    let hi = if sx::param(7, 1) == 2 { lo + 2 } else { hi };
    let b = sx::range(lo as u64, hi as u64) as u8;
    unsafe { String::from_utf8_unchecked(vec![b]) }
}

fn name() -> String {
    match sx::choice(2) {
        0 => letter(b'A', b'P'),
        _ => {
            let mut s = "É".to_string();
            s.push_str(&letter(b'f', b'h'));
            s
        }
    }
}

fn leaf() -> Ty {
    match sx::choice(4) {
        0 => Ty::Class(vec![name()]),
        1 => Ty::Class(vec![name(), "B".into()]),
        2 => Ty::Nil,
        _ => Ty::Bool,
    }
}

fn ty(depth: u64) -> Ty {
    if depth == 0 {
        return leaf();
    }
    match sx::choice(6) {
        0 => leaf(),
        1 => Ty::Array(vec![ty(depth - 1)]),
        2 => Ty::Array(vec![ty(depth - 1), Ty::Class(vec!["S".into()])]),
        3 => Ty::Pair(Box::new(Ty::Class(vec!["K".into()])), Box::new(ty(depth - 1))),
        4 => Ty::Map(vec![Ty::Class(vec!["K".into()])], vec![ty(depth - 1)]),
        _ => Ty::Map(vec![Ty::Nil, Ty::Class(vec!["K".into()])], vec![ty(depth - 1), Ty::Nil]),
    }
}

fn comma(tight: bool) -> &'static str {
    if tight { "," } else { ", " }
}

fn list(out: &mut String, ts: &[Ty], tight: bool) {
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            out.push_str(comma(tight));
        }
        write(out, t, tight);
    }
}

fn write(out: &mut String, t: &Ty, tight: bool) {
    match t {
        Ty::Class(p) => {
            for (i, s) in p.iter().enumerate() {
                if i > 0 {
                    out.push_str("::");
                }
                out.push_str(s);
            }
        }
        Ty::Nil => out.push_str("nil"),
        Ty::Bool => out.push_str("Boolean"),
        Ty::Array(e) => {
            out.push_str("Array<");
            list(out, e, tight);
            out.push('>');
        }
        Ty::Pair(k, v) => {
            out.push_str("Hash<");
            write(out, k, tight);
            out.push_str(comma(tight));
            write(out, v, tight);
            out.push('>');
        }
        Ty::Map(k, v) => {
            out.push_str("Hash{");
            list(out, k, tight);
            out.push_str(if tight { "=>" } else { " => " });
            list(out, v, tight);
            out.push('}');
        }
        Ty::Generic(n, e) => {
            out.push_str(n);
            out.push('<');
            list(out, e, tight);
            out.push('>');
        }
    }
}

/// the name an entry is looked up by
fn base(t: &Ty) -> String {
    match t {
        Ty::Class(p) => p.join("::"),
        Ty::Nil => "nil".into(),
        Ty::Bool => "Boolean".into(),
        Ty::Array(_) => "Array".into(),
        Ty::Pair(..) | Ty::Map(..) => "Hash".into(),
        Ty::Generic(n, _) => n.clone(),
    }
}

fn units(s: &str) -> u32 {
    s.chars().map(|c| if (c as u32) > 0xffff { 2 } else { 1 }).sum()
}

/// The entry under the cursor is looked up by its own name, wherever in the
/// line the list stands and whatever the other entries look like.
#[no_mangle]
pub extern "C" fn h_yard_cursor() {
    let depth = sx::param(0, 1);
    let n = sx::param(1, 2) as usize;
    // the pattern is compiled before anything is symbolic
    let _ = YardParser::find_type_at_position("# [A]", SourcePosition { line: 0, character: 3 });
    let comment = sx::choice(4) != 0;
    let mut line = String::from(if !comment {
        "x = @a"
    } else {
        sx::pick(&["# @return ", "  # @param é ", "\t# 😀 [Q] é "])
    });
    line.push('[');
    let tight = sx::flag();
    let mut ts = Vec::new();
    let mut at: Vec<(u32, u32)> = Vec::new();
    for i in 0..n {
        // one entry carries the depth, the others are plain
        let t = if i == 0 { ty(depth) } else { Ty::Class(vec![letter(b'A', b'P')]) };
        ts.push(t);
    }
    if n > 1 && sx::flag() {
        ts.rotate_left(1);
    }
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            line.push_str(comma(tight));
        }
        let s = units(&line);
        write(&mut line, t, tight);
        at.push((s, units(&line)));
    }
    line.push(']');
    let close = units(&line);
    line.push_str(sx::pick(&["", " é [Z]"]));
    let above = sx::choice(2) as u32;
    let mut text = String::from(if above == 1 { "# [É, B]\r\n" } else { "" });
    text.push_str(&line);
    text.push_str("\ndef m; end\n");
    let total = units(&line);
    let col = sx::range(0, total as u64 + 1) as u32;
    let got = YardParser::find_type_at_position(&text, SourcePosition { line: above, character: col });
    if !comment {
        sx::check(got.is_none(), "no type is found outside a comment");
        sx::cover("outside a comment");
        return;
    }
    for i in 0..n {
        let (s, e) = at[i];
        if col >= s && col < e {
            sx::cover("the cursor is on an entry");
            match &got {
                None => sx::fail("the entry under the cursor is found"),
                Some(g) => {
                    sx::check(g.type_name == base(&ts[i]), "the entry under the cursor is looked up by its own name");
                    sx::check(
                        g.range.start.line == above && g.range.end.line == above,
                        "the entry found is on the cursor's line",
                    );
                    let lo = if i == 0 { s } else { at[i - 1].1 };
                    let hi = if i + 1 == n { close } else { at[i + 1].0 };
                    sx::check(
                        g.range.start.character >= lo && g.range.start.character <= s && g.range.end.character >= e && g.range.end.character <= hi,
                        "the range found covers that entry and no other",
                    );
                }
            }
            return;
        }
    }
    if col >= close && col < close + 3 {
        sx::check(got.is_none(), "no type is found after the list");
        sx::cover("after the list");
    }
    if col < at[0].0 - 1 {
        if let Some(g) = &got {
            sx::check(g.type_name == "Q", "no type is found before the list");
        }
    }
}

fn boolean(t: &RubyType) -> bool {
    match t {
        RubyType::Union(m) => {
            m.len() == 2 && m.iter().any(|t| *t == RubyType::true_class()) && m.iter().any(|t| *t == RubyType::false_class())
        }
        _ => false,
    }
}

/// is `got` what was written; a map nested in a map may be given up as unknown
fn agrees(t: &Ty, got: &RubyType) -> bool {
    match (t, got) {
        (Ty::Nil, g) => *g == RubyType::nil_class(),
        (Ty::Bool, g) => boolean(g),
        (Ty::Class(p), RubyType::Class(f)) => f.to_string() == p.join("::"),
        (Ty::Array(e), RubyType::Array(g)) => all(e, g),
        (Ty::Pair(k, v), RubyType::Hash(gk, gv)) => all(std::slice::from_ref(&**k), gk) && all(std::slice::from_ref(&**v), gv),
        (Ty::Map(k, v), RubyType::Hash(gk, gv)) => {
            (all(k, gk) && all(v, gv)) || (arrow(v) && *gk == [RubyType::Unknown] && *gv == [RubyType::Unknown])
        }
        _ => false,
    }
}

fn arrow(ts: &[Ty]) -> bool {
    ts.iter().any(|t| match t {
        Ty::Map(..) => true,
        Ty::Array(e) | Ty::Generic(_, e) => arrow(e),
        Ty::Pair(k, v) => arrow(std::slice::from_ref(&**k)) || arrow(std::slice::from_ref(&**v)),
        _ => false,
    })
}

fn all(ts: &[Ty], got: &[RubyType]) -> bool {
    // each written type is there and nothing else is
    ts.iter().all(|t| got.iter().any(|g| agrees(t, g))) && got.iter().all(|g| ts.iter().any(|t| agrees(t, g)))
}

/// A tag's types, name and places are those written, for every tag kind.
#[no_mangle]
pub extern "C" fn h_yard_tags() {
    let depth = sx::param(0, 1);
    let n = sx::param(1, 2) as usize;
    let kind = sx::param(2, 9);
    let _ = YardParser::parse("# @param a [A] x\n# @param[A] a\n# @option a [A] :b (1) x\n# @return [A] x\n# @yieldparam a [A] x\n# @yieldreturn [A] x\n# @raise [A]\n# @deprecated x\n# @unavailable x\n# @absent");
    let kind = if kind == 9 { sx::choice(7) } else { kind };
    let tight = sx::flag();
    let mut ts = vec![ty(depth)];
    for _ in 1..n {
        ts.push(if sx::flag() { Ty::Class(vec![letter(b'A', b'P')]) } else { Ty::Nil });
    }
    if n > 1 && sx::flag() {
        ts.rotate_left(1);
    }
    let mut name = String::from(sx::pick(&["", "é"]));
    name.push_str(&letter(b'f', b'h'));
    let mut texts = Vec::new();
    let mut types = String::new();
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            types.push_str(comma(tight));
        }
        let mut s = String::new();
        write(&mut s, t, tight);
        types.push_str(&s);
        texts.push(s);
    }
    let (indent, hash, eol, above, after, words) = sx::pick(&[
        ("", "# ", "\n", 0u64, false, ""),
        ("  ", "#", "\r\n", 1, true, "è wörds [not] ones"),
        ("\t", "##  ", "\n", 2, true, ""),
        ("    ", "# ", "\n", 2, false, "è wörds [not] ones"),
        ("  ", "# ", "\r\n", 2, true, "words"),
        ("", "#", "\n", 1, false, "è wörds [not] ones"),
    ]);
    let mut line = String::from(indent);
    line.push_str(hash);
    let start = units(&line);
    line.push_str(match kind {
        0 => "@param ",
        1 => "@param ",
        2 => "@option ",
        3 => "@return ",
        4 => "@yieldparam ",
        5 => "@yieldreturn ",
        _ => "@raise ",
    });
    if kind == 0 || kind == 2 || kind == 4 {
        line.push_str(&name);
        line.push(' ');
    }
    let open = units(&line);
    line.push('[');
    line.push_str(&types);
    line.push(']');
    let close = units(&line);
    if kind == 1 {
        line.push(' ');
        line.push_str(&name);
    }
    if kind == 2 {
        line.push_str(" :k");
    }
    if !words.is_empty() {
        line.push(' ');
        line.push_str(words);
    }
    let end = units(&line);
    let mut text = String::new();
    let mut row = 0;
    match above {
        0 => {}
        1 => {
            // a comment of something else, then code
            text.push_str("# @return [Other]");
            text.push_str(eol);
            text.push_str("x = 1 # é");
            text.push_str(eol);
            row = 2;
        }
        _ => {
            text.push_str("# Says é.");
            text.push_str(eol);
            row = 1;
        }
    }
    text.push_str(&line);
    text.push_str(eol);
    if after {
        text.push_str("# @return [Last]");
        text.push_str(eol);
    }
    text.push_str(indent);
    let at = text.len();
    text.push_str("def m; end");
    text.push_str(eol);
    let Some(doc) = YardParser::extract_from_source(&text, at) else {
        // a comment that speaks only of the block says nothing about the method
        let block = (kind == 4 || kind == 5) && !after && above != 2;
        sx::check(block, "the comment above a method is its documentation");
        return;
    };
    let spot = |s: u32, e: u32| SourceRange {
        start: SourcePosition { line: row, character: s },
        end: SourcePosition { line: row, character: e },
    };
    let desc = if words.is_empty() { None } else { Some(words.to_string()) };
    let mut counts = [0usize; 6];
    match kind {
        0 | 1 => counts[0] = 1,
        2 => counts[1] = 1,
        3 => counts[2] = 1,
        4 => counts[3] = 1,
        5 => counts[4] = 1,
        _ => counts[5] = 1,
    }
    if after {
        counts[2] += 1;
    }
    sx::check(
        [
            doc.params.len(),
            doc.options.len(),
            doc.returns.len(),
            doc.yield_params.len(),
            doc.yield_returns.len(),
            doc.raises.len(),
        ] == counts,
        "each tag of the comment above is read once, as its own kind",
    );
    sx::check(
        doc.description.as_deref() == if above == 2 { Some("Says é.") } else { None },
        "the description is the text before the tags",
    );
    let got: &[String] = match kind {
        0 | 1 => {
            let p = &doc.params[0];
            sx::check(p.name == name, "a parameter tag documents the parameter it names");
            sx::check(p.range == Some(spot(start, end)), "a parameter tag's range is its text in editor columns");
            sx::check(p.types_range == Some(spot(open, close)), "the types' range is the bracketed text in editor columns");
            sx::check(p.description == desc, "a parameter's description is the text after it");
            sx::cover("param");
            &p.types
        }
        2 => {
            let p = &doc.options[0];
            sx::check(p.param_name == name && p.key_name == "k", "an option tag documents the key it names");
            sx::check(p.range == Some(spot(start, end)), "an option tag's range is its text in editor columns");
            sx::check(p.description == desc && p.default.is_none(), "an option's description is the text after it");
            sx::cover("option");
            &p.types
        }
        3 => {
            let p = &doc.returns[0];
            sx::check(p.range == Some(spot(start, end)), "a return tag's range is its text in editor columns");
            sx::check(p.types_range == Some(spot(open, close)), "the types' range is the bracketed text in editor columns");
            sx::check(p.description == desc, "a return description is the text after it");
            sx::cover("return");
            &p.types
        }
        4 => {
            let p = &doc.yield_params[0];
            sx::check(p.name == name && p.description == desc, "a block parameter tag documents the parameter it names");
            sx::cover("yieldparam");
            &p.types
        }
        5 => {
            sx::check(doc.yield_returns[0].description == desc, "a block return description is the text after it");
            sx::cover("yieldreturn");
            &doc.yield_returns[0].types
        }
        _ => {
            sx::check(doc.raises[0] == types, "a raise tag's types are those written");
            sx::cover("raise");
            return;
        }
    };
    sx::check(got.len() == n, "a list has as many types as entries were written");
    for i in 0..n {
        sx::check(got[i] == texts[i], "the types of a tag are the entries written, in order");
    }
}

/// The type an annotation stands for holds exactly the written alternatives.
#[no_mangle]
pub extern "C" fn h_yard_convert() {
    let depth = sx::param(0, 1);
    let n = sx::param(1, 2) as usize;
    // the table of names is set up before the cases part
    let _ = YardTypeConverter::convert("A::B");
    let tight = sx::flag();
    let mut ts = vec![ty(depth)];
    for _ in 1..n {
        ts.push(ty(depth.min(1)));
    }
    if n > 1 && sx::flag() {
        ts.rotate_left(1);
    }
    let texts: Vec<String> = ts
        .iter()
        .map(|t| {
            let mut s = String::new();
            write(&mut s, t, tight);
            s
        })
        .collect();
    let got = YardTypeConverter::convert_multiple(&texts);
    if n == 1 {
        sx::check(agrees(&ts[0], &got), "one written type is read as that type");
        sx::cover("one type");
        return;
    }
    // the alternatives of the union, booleans taken apart
    let members: Vec<RubyType> = match &got {
        RubyType::Union(m) => m.clone(),
        t => vec![t.clone()],
    };
    let bools = [RubyType::true_class(), RubyType::false_class()];
    for t in &ts {
        match t {
            Ty::Bool => sx::check(bools.iter().all(|b| members.contains(b)), "a written boolean is both of its values"),
            t => sx::check(members.iter().any(|g| agrees(t, g)), "each written alternative is in the type read"),
        }
    }
    for g in &members {
        let ok = ts.iter().any(|t| match t {
            Ty::Bool => bools.contains(g),
            t => agrees(t, g),
        });
        sx::check(ok, "the type read has no alternative that was not written");
    }
    sx::cover("several types");
}
