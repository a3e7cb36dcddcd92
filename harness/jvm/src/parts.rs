//! The parts of a class file that are lists of tagged or counted things.
use crate::classfile::*;
use crate::sx;
use ruby_fast_lsp_jvm_metadata::*;

/// a class without members, with the given attributes
fn bare(attrs: &[(u16, Vec<u8>)]) -> Vec<u8> {
    with_member(0, &[], attrs)
}

/// a class with one field (1) or method (2) that has the first attributes
fn with_member(kind: u16, member: &[(u16, Vec<u8>)], attrs: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = Out(Vec::new());
    o.u4(0xcafebabe);
    o.u2(0);
    o.u2(61);
    pool(&mut o);
    o.u2(0x21);
    o.u2(2);
    o.u2(4);
    o.u2(0);
    for k in [1, 2] {
        o.u2((k == kind) as u16);
        if k == kind {
            o.u2(1);
            o.u2(if k == 1 { 11 } else { 9 });
            o.u2(if k == 1 { 12 } else { 10 });
            o.u2(member.len() as u16);
            for (name, body) in member {
                o.attr(*name, body);
            }
        }
    }
    o.u2(attrs.len() as u16);
    for (name, body) in attrs {
        o.attr(*name, body);
    }
    o.0
}

fn be(b: &[u8], i: usize) -> Option<u16> {
    if i + 2 <= b.len() {
        Some((b[i] as u16) << 8 | b[i + 1] as u16)
    } else {
        None
    }
}

/// where the annotation value that starts at i ends
fn value_end(b: &[u8], i: usize, depth: u32) -> Option<usize> {
    let tag = *b.get(i)?;
    if depth > 8 {
        return None;
    }
    match tag {
        b'e' => be(b, i + 1).and(be(b, i + 3)).map(|_| i + 5),
        b'@' => annotation_end(b, i + 1, depth + 1),
        b'[' => {
            let n = be(b, i + 1)?;
            let mut at = i + 3;
            for _ in 0..n {
                at = value_end(b, at, depth + 1)?;
            }
            Some(at)
        }
        b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' | b's' | b'c' => be(b, i + 1).map(|_| i + 3),
        _ => None,
    }
}

fn annotation_end(b: &[u8], i: usize, depth: u32) -> Option<usize> {
    field_type(be(b, i)?)?;
    let n = be(b, i + 2)?;
    let mut at = i + 4;
    for _ in 0..n {
        text(be(b, at)?)?;
        at = value_end(b, at + 2, depth)?;
    }
    Some(at)
}

/// values of any kind in the annotations of the class, its field, its method or its record component
#[no_mangle]
pub extern "C" fn h_class_annotations() {
    let n = sx::param(0, 6) as usize;
    let place = sx::choice(4);
    let name = if sx::flag() { 26 } else { 30 };
    let value = sx::vec(n);
    // an array of the symbolic value and one more, then a second annotation
    let mut body = vec![0, 2, 0, 27, 0, 1, 0, 22];
    if sx::param(1, 0) == 1 {
        body.extend_from_slice(&[b'[', 0, 2, b's', 0, 22]);
    }
    body.extend_from_slice(&value);
    body.extend_from_slice(&[0, 12, 0, 0]);
    let mut end = annotation_end(&body, 2, 0);
    if let Some(e) = end {
        end = annotation_end(&body, e, 0);
    }
    let ok = end == Some(body.len());
    // which the second annotation is depends on where the first one ends
    let attrs = vec![(name, body.clone())];
    let bytes = match place {
        0 => bare(&attrs),
        1 => with_member(1, &attrs, &[]),
        2 => with_member(2, &attrs, &[]),
        _ => {
            let mut rec = Out(vec![]);
            rec.u2(1);
            rec.u2(22);
            rec.u2(29);
            rec.u2(1);
            rec.attr(name, &body);
            bare(&[(28, rec.0)])
        }
    };
    let got = parse_class(&bytes, ClassLimits::default());
    if !ok {
        sx::cover("malformed annotation");
        sx::check(got.is_err(), "a malformed annotation is accepted");
        return;
    }
    sx::cover("well-formed annotation");
    match got {
        Err(_) => sx::fail("a well-formed annotation is refused"),
        Ok(c) => {
            let second = annotation_end(&body, 2, 0).unwrap();
            let a = match place {
                0 => &c.annotations,
                1 => &c.fields[0].annotations,
                2 => &c.methods[0].annotations,
                _ => &c.record_components[0].annotations,
            };
            sx::check(a.len() == 2, "annotations are lost or made up");
            sx::check(a[0].descriptor == "Lp/N;", "an annotation is read as another one");
            sx::check(Some(a[1].descriptor.as_str()) == field_type(be(&body, second).unwrap()), "an annotation is read as another one");
        }
    }
}

/// one constant of any kind and content before those the class uses
#[no_mangle]
pub extern "C" fn h_class_constants() {
    let tag = sx::u8();
    let size = match tag {
        1 => Some(2 + 1),
        3 | 4 | 9 | 10 | 11 | 12 | 17 | 18 => Some(4),
        5 | 6 => Some(8),
        7 | 8 | 16 | 19 | 20 => Some(2),
        15 => Some(3),
        _ => None,
    };
    let wide = tag == 5 || tag == 6;
    let last = sx::param(0, 0) >= 1;
    // a wide constant at the end of a pool that has no room for its second half
    let short = sx::param(0, 0) == 2;
    sx::assume(!short || wide);
    let mut o = Out(Vec::new());
    o.u4(0xcafebabe);
    o.u2(sx::u16());
    o.u2(sx::u16());
    let first = if last { 1 } else { 2 + wide as u16 };
    o.u2(4 + (wide && !short) as u16);
    let fill = |o: &mut Out| {
        o.u1(tag);
        if tag == 1 {
            o.u2(1);
            let b = sx::u8();
            sx::assume(b > 0 && b < 0x80);
            o.u1(b);
        } else {
            for b in sx::vec(size.unwrap_or(4)) {
                o.u1(b);
            }
        }
    };
    if !last {
        fill(&mut o);
    }
    o.utf8(b"q/A");
    o.u1(7);
    o.u2(first);
    if last {
        fill(&mut o);
    }
    o.u2(0);
    let this = sx::u16();
    o.u2(this);
    for _ in 0..5 {
        o.u2(0);
    }
    let got = parse_class(&o.0, ClassLimits::default());
    // the symbolic constant may itself be a class
    let own = if last { 3 } else { 1 };
    let own_names = tag == 7 && {
        let at = 10 + if last { 9 } else { 0 };
        be(&o.0, at + 1) == Some(first)
    };
    let ok = !short && size.is_some() && (this == first + 1 || (own_names && this == own));
    if ok {
        sx::cover("well-formed constants");
        match got {
            Ok(c) => {
                sx::check(c.name == "q/A", "the name of a class is read from another constant");
                sx::check(c.minor_version == be(&o.0, 4).unwrap() && c.major_version == be(&o.0, 6).unwrap(), "the version of a class is wrong");
            }
            Err(_) => sx::fail("a class file is refused for a constant it does not use"),
        }
    } else {
        sx::cover("malformed constants");
        sx::check(got.is_err(), "a class file with a malformed constant is accepted");
    }
}

/// the end of a list of exports or opens at i
fn packages_end(b: &[u8], i: usize) -> Option<usize> {
    let n = be(b, i)?;
    let mut at = i + 2;
    for _ in 0..n {
        be(b, at)?;
        be(b, at + 2)?;
        let m = be(b, at + 4)?;
        at += 6 + 2 * m as usize;
        if at > b.len() {
            return None;
        }
    }
    Some(at)
}

fn module(b: &[u8]) -> Option<&'static str> {
    let name = module_at(be(b, 0)?)?;
    be(b, 2)?;
    let version = be(b, 4)?;
    if version != 0 {
        text(version)?;
    }
    let n = be(b, 6)?;
    let mut at = 8;
    for _ in 0..n {
        be(b, at)?;
        be(b, at + 2)?;
        let v = be(b, at + 4)?;
        if v != 0 {
            text(v)?;
        }
        at += 6;
    }
    at = packages_end(b, at)?;
    at = packages_end(b, at)?;
    at += 2 + 2 * be(b, at)? as usize;
    let n = be(b, at)?;
    at += 2;
    for _ in 0..n {
        be(b, at)?;
        let m = be(b, at + 2)?;
        at += 4 + 2 * m as usize;
        if at > b.len() {
            return None;
        }
    }
    if at == b.len() {
        Some(name)
    } else {
        None
    }
}

/// the descriptor of a module with symbolic counts and contents
#[no_mangle]
pub extern "C" fn h_class_module() {
    let n = sx::param(0, 4) as usize;
    let mut body = vec![0, 32, 0, 0, 0, 0];
    match sx::param(1, 0) {
        0 => {
            body = sx::vec(6);
            body.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        }
        1 => {
            // requires one module
            body.extend_from_slice(&[0, 1]);
            body.extend_from_slice(&sx::vec(6));
            body.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0]);
        }
        2 => {
            body.extend_from_slice(&[0, 0]);
            body.extend_from_slice(&sx::vec(n));
            body.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
        }
        3 => {
            body.extend_from_slice(&[0, 0, 0, 0]);
            body.extend_from_slice(&sx::vec(n));
            body.extend_from_slice(&[0, 0, 0, 0]);
        }
        4 => {
            body.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
            body.extend_from_slice(&sx::vec(n));
            body.extend_from_slice(&[0, 0]);
        }
        _ => {
            body.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0]);
            body.extend_from_slice(&sx::vec(n));
        }
    }
    let got = parse_class(&bare(&[(31, body.clone())]), ClassLimits::default());
    match module(&body) {
        Some(name) => {
            sx::cover("well-formed module");
            match got {
                Ok(c) => sx::check(c.module_name.as_deref() == Some(name), "a module is read under another name"),
                Err(_) => sx::fail("a well-formed module is refused"),
            }
        }
        None => {
            sx::cover("malformed module");
            sx::check(got.is_err(), "a malformed module is accepted");
        }
    }
}

/// attributes that may appear once appear twice, or are longer or shorter than their contents
#[no_mangle]
pub extern "C" fn h_class_attributes() {
    let name = [19u16, 18, 21, 28, 31, 17, 16, 13, 14, 15][sx::choice(10) as usize];
    let body: Vec<u8> = match name {
        19 | 18 => vec![0, 20],
        31 => vec![0, 32, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        16 => vec![0],
        13 => vec![0, 1, 0, 1, 0, 0, 0, 1, 0xb1, 0, 0, 0, 0],
        _ => vec![0, 0],
    };
    let place = match name {
        18 => sx::choice(4), // a signature has a place everywhere
        19 | 21 | 28 | 31 => 0,
        16 | 17 | 13 => 2,
        _ => 4,
    };
    let case = sx::choice(4);
    let mut attrs = vec![(name, body.clone())];
    match case {
        0 => {}
        1 => attrs.push((name, body.clone())),
        2 => attrs[0].1.push(sx::u8()),
        _ => {
            attrs[0].1.pop();
        }
    }
    let bytes = match place {
        0 => bare(&attrs),
        1 => with_member(1, &attrs, &[]),
        2 => with_member(2, &attrs, &[]),
        3 => {
            let mut rec = Out(vec![]);
            rec.u2(1);
            rec.u2(22);
            rec.u2(29);
            rec.u2(attrs.len() as u16);
            for (n, b) in &attrs {
                rec.attr(*n, b);
            }
            bare(&[(28, rec.0)])
        }
        _ => {
            let mut code = Out(vec![0, 1, 0, 1, 0, 0, 0, 1, 0xb1, 0, 0]);
            code.u2(attrs.len() as u16);
            for (n, b) in &attrs {
                code.attr(*n, b);
            }
            with_member(2, &[(13, code.0)], &[])
        }
    };
    let got = parse_class(&bytes, ClassLimits::default());
    if case == 0 {
        sx::cover("well-formed attribute");
        match got {
            Err(_) => sx::fail("a well-formed attribute is refused"),
            Ok(c) => {
                let own = Some("A.java".to_string());
                let none: Option<String> = None;
                sx::check(c.source_file == if name == 19 { own.clone() } else { none.clone() }, "the source file of a class is wrong");
                sx::check(c.signature == if name == 18 && place == 0 { own.clone() } else { none.clone() }, "the signature of a class is wrong");
                if place == 1 {
                    sx::check(c.fields[0].signature == own, "the signature of a field is wrong");
                }
                if place == 2 {
                    sx::check(c.methods[0].signature == if name == 18 { own.clone() } else { none.clone() }, "the signature of a method is wrong");
                }
                if place == 3 {
                    sx::check(c.record_components[0].signature == own, "the signature of a record component is wrong");
                }
            }
        }
    } else {
        sx::cover("malformed attribute");
        sx::check(got.is_err(), "an attribute that is repeated or has the wrong length is accepted");
    }
}
