//! Java class files: what is read is what the file says, and a malformed file is refused.
use crate::sx;
use ruby_fast_lsp_jvm_metadata::*;

// ---- descriptors -------------------------------------------------------------------

/// the end of the field type starting at `i`, if there is one
fn field_end(b: &[u8], mut i: usize) -> Option<usize> {
    let mut dims = 0;
    while i < b.len() && b[i] == b'[' {
        dims += 1;
        i += 1;
    }
    if dims > 255 || i >= b.len() {
        return None;
    }
    match b[i] {
        b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' => Some(i + 1),
        b'L' => {
            let mut j = i + 1;
            while j < b.len() && b[j] != b';' {
                j += 1;
            }
            if j < b.len() && j > i + 1 {
                Some(j + 1)
            } else {
                None
            }
        }
        _ => None,
    }
}

fn same_type(t: &JvmType, b: &[u8]) -> bool {
    let mut t = t;
    let mut i = 0;
    loop {
        if i >= b.len() {
            return false;
        }
        let one = |c: u8| b[i] == c && i + 1 == b.len();
        match t {
            JvmType::Byte => return one(b'B'),
            JvmType::Char => return one(b'C'),
            JvmType::Double => return one(b'D'),
            JvmType::Float => return one(b'F'),
            JvmType::Int => return one(b'I'),
            JvmType::Long => return one(b'J'),
            JvmType::Short => return one(b'S'),
            JvmType::Boolean => return one(b'Z'),
            JvmType::Void => return one(b'V'),
            JvmType::Object(n) => {
                return b[i] == b'L' && b[b.len() - 1] == b';' && n.as_bytes() == &b[i + 1..b.len() - 1];
            }
            JvmType::Array(e) => {
                if b[i] != b'[' {
                    return false;
                }
                i += 1;
                t = e;
            }
        }
    }
}

fn judge_descriptor(b: &[u8]) {
    let text = match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(_) => {
            sx::assume(false);
            return;
        }
    };
    let f = parse_field_descriptor(text);
    match field_end(b, 0) {
        Some(e) if e == b.len() => {
            sx::cover("field descriptor");
            match &f {
                Ok(t) => sx::check(same_type(t, b), "a field descriptor is read as another type"),
                Err(_) => sx::fail("a valid field descriptor is refused"),
            }
        }
        _ => sx::check(f.is_err(), "an invalid field descriptor is accepted"),
    }
    let m = parse_method_descriptor(text);
    // ( type* ) ( type | V )
    let mut params = Vec::new();
    let mut ok = b.len() > 0 && b[0] == b'(';
    let mut i = 1;
    while ok && i < b.len() && b[i] != b')' {
        match field_end(b, i) {
            Some(e) => {
                params.push((i, e));
                i = e;
            }
            None => ok = false,
        }
    }
    let mut ret = (0, 0);
    if ok {
        ok = i < b.len();
        i += 1;
        if ok && i < b.len() && b[i] == b'V' {
            ret = (i, i + 1);
        } else if ok {
            match field_end(b, i) {
                Some(e) => ret = (i, e),
                None => ok = false,
            }
        }
        ok = ok && ret.1 == b.len();
    }
    if !ok {
        sx::check(m.is_err(), "an invalid method descriptor is accepted");
        return;
    }
    sx::cover("method descriptor");
    match &m {
        Ok(m) => {
            sx::check(m.parameters.len() == params.len(), "a method descriptor is read with another number of parameters");
            for (t, (s, e)) in m.parameters.iter().zip(&params) {
                sx::check(same_type(t, &b[*s..*e]), "a parameter is read as another type");
            }
            sx::check(same_type(&m.returns, &b[ret.0..ret.1]), "a return type is read as another type");
        }
        Err(_) => sx::fail("a valid method descriptor is refused"),
    }
}

#[no_mangle]
pub extern "C" fn h_descriptor() {
    let n = sx::param(0, 4) as usize;
    let b = match sx::param(1, 0) {
        0 => sx::vec(n),
        1 => [b"(".to_vec(), sx::vec(n)].concat(),
        2 => [b"(La/B;".to_vec(), sx::vec(n), b")[[J".to_vec()].concat(),
        _ => [vec![b'['; 252], sx::vec(n)].concat(),
    };
    judge_descriptor(&b);
}

// ---- class files ---------------------------------------------------------------------

pub struct Out(pub Vec<u8>);
impl Out {
    pub fn u1(&mut self, v: u8) {
        self.0.push(v);
    }
    pub fn u2(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_be_bytes());
    }
    pub fn u4(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_be_bytes());
    }
    pub fn utf8(&mut self, s: &[u8]) {
        self.u1(1);
        self.u2(s.len() as u16);
        self.0.extend_from_slice(s);
    }
    pub fn attr(&mut self, name: u16, body: &[u8]) {
        self.u2(name);
        self.u4(body.len() as u32);
        self.0.extend_from_slice(body);
    }
}

/// a class whose only Utf8 constant besides nothing is its name
pub fn class_named(name: &[u8], major: u16) -> Vec<u8> {
    let mut o = Out(Vec::new());
    o.u4(0xcafebabe);
    o.u2(0);
    o.u2(major);
    o.u2(3);
    o.utf8(name);
    o.u1(7);
    o.u2(1);
    o.u2(0x21);
    o.u2(2);
    o.u2(0);
    for _ in 0..4 {
        o.u2(0);
    }
    o.0
}

/// modified UTF-8 by the book: UTF-16 units of one to three bytes each
fn units(b: &[u8]) -> Option<Vec<u16>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let (n, v) = if b[i] != 0 && b[i] < 0x80 {
            (1, b[i] as u16)
        } else if b[i] & 0xe0 == 0xc0 {
            if i + 1 >= b.len() || b[i + 1] & 0xc0 != 0x80 {
                return None;
            }
            (2, ((b[i] & 0x1f) as u16) << 6 | (b[i + 1] & 0x3f) as u16)
        } else if b[i] & 0xf0 == 0xe0 {
            if i + 2 >= b.len() || b[i + 1] & 0xc0 != 0x80 || b[i + 2] & 0xc0 != 0x80 {
                return None;
            }
            (3, ((b[i] & 0x0f) as u16) << 12 | ((b[i + 1] & 0x3f) as u16) << 6 | (b[i + 2] & 0x3f) as u16)
        } else {
            return None;
        };
        // the shortest form, except that NUL takes two bytes
        let ok = match n {
            1 => true,
            2 => v == 0 || v >= 0x80,
            _ => v >= 0x800,
        };
        if !ok {
            return None;
        }
        out.push(v);
        i += n;
    }
    Some(out)
}

/// the same text in UTF-8, if no surrogate is alone
fn utf8(u: &[u16]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < u.len() {
        let mut c = u[i] as u32;
        if c & 0xfc00 == 0xd800 {
            if i + 1 >= u.len() || u[i + 1] & 0xfc00 != 0xdc00 {
                return None;
            }
            c = 0x10000 + ((c & 0x3ff) << 10) + (u[i + 1] as u32 & 0x3ff);
            i += 1;
        } else if c & 0xfc00 == 0xdc00 {
            return None;
        }
        i += 1;
        if c < 0x80 {
            out.push(c as u8);
        } else if c < 0x800 {
            out.push(0xc0 | (c >> 6) as u8);
            out.push(0x80 | (c & 0x3f) as u8);
        } else if c < 0x10000 {
            out.push(0xe0 | (c >> 12) as u8);
            out.push(0x80 | (c >> 6 & 0x3f) as u8);
            out.push(0x80 | (c & 0x3f) as u8);
        } else {
            out.push(0xf0 | (c >> 18) as u8);
            out.push(0x80 | (c >> 12 & 0x3f) as u8);
            out.push(0x80 | (c >> 6 & 0x3f) as u8);
            out.push(0x80 | (c & 0x3f) as u8);
        }
    }
    Some(out)
}

#[no_mangle]
pub extern "C" fn h_class_name() {
    let n = sx::param(0, 3) as usize;
    let name = sx::vec(n);
    let bytes = class_named(&name, 61);
    let got = parse_class(&bytes, ClassLimits::default());
    match units(&name) {
        None => {
            sx::cover("malformed name");
            sx::check(got.is_err(), "a malformed name is accepted");
        }
        Some(u) => match utf8(&u) {
            None => sx::check(got.is_err(), "a name that is no text is accepted"),
            Some(want) => {
                sx::cover("well-formed name");
                match got {
                    Ok(c) => sx::check(c.name.as_bytes() == &want[..], "a name is read as another one"),
                    Err(_) => sx::fail("a well-formed name is refused"),
                }
            }
        },
    }
}

/// the constants of the class below; a Long takes two indexes
#[derive(Clone, Copy, PartialEq)]
enum K {
    None,
    Utf8(&'static str),
    Class(u16),
    Module(u16),
    Other,
}

const POOL: [K; 36] = [
    K::None,
    K::Utf8("p/A"),               // 1
    K::Class(1),                  // 2
    K::Utf8("p/B"),               // 3
    K::Class(3),                  // 4
    K::Other,                     // 5 Long
    K::None,                      // 6 (its second half)
    K::Utf8("p/I"),               // 7
    K::Class(7),                  // 8
    K::Utf8("m"),                 // 9
    K::Utf8("(IJLp/A;)V"),        // 10
    K::Utf8("f"),                 // 11
    K::Utf8("[I"),                // 12
    K::Utf8("Code"),              // 13
    K::Utf8("LineNumberTable"),   // 14
    K::Utf8("LocalVariableTable"),// 15
    K::Utf8("MethodParameters"),  // 16
    K::Utf8("Exceptions"),        // 17
    K::Utf8("Signature"),         // 18
    K::Utf8("SourceFile"),        // 19
    K::Utf8("A.java"),            // 20
    K::Utf8("InnerClasses"),      // 21
    K::Utf8("x"),                 // 22
    K::Utf8("y"),                 // 23
    K::Other,                     // 24 String
    K::Utf8("Deprecated"),        // 25
    K::Utf8("RuntimeVisibleAnnotations"), // 26
    K::Utf8("Lp/N;"),             // 27
    K::Utf8("Record"),            // 28
    K::Utf8("I"),                 // 29
    K::Utf8("RuntimeInvisibleAnnotations"), // 30
    K::Utf8("Module"),            // 31
    K::Module(11),                // 32
    K::Other,                     // 33 Package
    K::Utf8("(FDI)V"),            // 34
    K::Utf8("([JD[[DI)D"),        // 35
];

pub fn pool(o: &mut Out) {
    o.u2(POOL.len() as u16);
    let mut i = 1;
    while i < POOL.len() {
        match POOL[i] {
            K::Utf8(s) => o.utf8(s.as_bytes()),
            K::Class(n) => {
                o.u1(7);
                o.u2(n);
            }
            K::Module(n) => {
                o.u1(19);
                o.u2(n);
            }
            K::Other if i == 33 => {
                o.u1(20);
                o.u2(1);
            }
            K::Other if i == 5 => {
                o.u1(5);
                o.u4(0);
                o.u4(7);
                i += 1;
            }
            K::Other => {
                o.u1(8);
                o.u2(1);
            }
            K::None => {}
        }
        i += 1;
    }
}

pub fn text(i: u16) -> Option<&'static str> {
    match POOL.get(i as usize) {
        Some(K::Utf8(s)) => Some(s),
        _ => None,
    }
}

pub fn module_at(i: u16) -> Option<&'static str> {
    match POOL.get(i as usize) {
        Some(K::Module(n)) => text(*n),
        _ => None,
    }
}

pub fn class_at(i: u16) -> Option<&'static str> {
    match POOL.get(i as usize) {
        Some(K::Class(n)) => text(*n),
        _ => None,
    }
}

/// every index and number of the class below that is left to the solver
struct Spec {
    flags: u16,
    this: u16,
    sup: u16,
    interface: u16,
    field_flags: u16,
    field_name: u16,
    field_type: u16,
    method_flags: u16,
    method_name: u16,
    lines: [u16; 2],
    locals: [(u16, u16, u16); 3], // start, name, slot
    params: Vec<(u16, u16)>,
    exception: u16,
    signature: u16,
    source: u16,
    inner: (u16, u16, u16, u16),
    annotation: u16,
    component: (u16, u16),
    order: bool,
    method_type: u16,
}

fn plain() -> Spec {
    Spec {
        flags: 0x21,
        this: 2,
        sup: 4,
        interface: 8,
        field_flags: 2,
        field_name: 11,
        field_type: 12,
        method_flags: 1,
        method_name: 9,
        lines: [12, 13],
        locals: [(0, 22, 1), (0, 23, 2), (4, 11, 4)],
        params: Vec::new(),
        exception: 4,
        signature: 11,
        source: 20,
        inner: (8, 2, 9, 1),
        annotation: 27,
        component: (22, 29),
        order: false,
        method_type: 10,
    }
}

fn build(s: &Spec) -> Vec<u8> {
    let mut o = Out(Vec::new());
    o.u4(0xcafebabe);
    o.u2(0);
    o.u2(61);
    pool(&mut o);
    o.u2(s.flags);
    o.u2(s.this);
    o.u2(s.sup);
    o.u2(1);
    o.u2(s.interface);
    // one field
    o.u2(1);
    o.u2(s.field_flags);
    o.u2(s.field_name);
    o.u2(s.field_type);
    o.u2(1);
    o.attr(18, &s.signature.to_be_bytes());
    // one method
    let mut lines = Out(Vec::new());
    lines.u2(2);
    for l in s.lines {
        lines.u2(0);
        lines.u2(l);
    }
    let mut locals = Out(Vec::new());
    locals.u2(3);
    for (start, name, slot) in s.locals {
        locals.u2(start);
        locals.u2(9);
        locals.u2(name);
        locals.u2(29);
        locals.u2(slot);
    }
    let mut code = Out(Vec::new());
    code.u2(3);
    code.u2(9);
    code.u4(2);
    code.u2(0xb1b1);
    code.u2(1);
    code.u4(0);
    code.u4(0);
    code.u2(2);
    code.attr(14, &lines.0);
    code.attr(15, &locals.0);
    let mut params = Out(Vec::new());
    params.u1(s.params.len() as u8);
    for (name, flags) in &s.params {
        params.u2(*name);
        params.u2(*flags);
    }
    let mut exc = Out(Vec::new());
    exc.u2(1);
    exc.u2(s.exception);
    o.u2(1);
    o.u2(s.method_flags);
    o.u2(s.method_name);
    o.u2(s.method_type);
    o.u2(3);
    if s.order {
        o.attr(16, &params.0);
        o.attr(13, &code.0);
    } else {
        o.attr(13, &code.0);
        o.attr(16, &params.0);
    }
    o.attr(17, &exc.0);
    // the class
    o.u2(5);
    o.attr(19, &s.source.to_be_bytes());
    let mut inner = Out(Vec::new());
    inner.u2(1);
    inner.u2(s.inner.0);
    inner.u2(s.inner.1);
    inner.u2(s.inner.2);
    inner.u2(s.inner.3);
    o.attr(21, &inner.0);
    o.attr(25, &[]);
    // one annotation with an array of a nested annotation and a number
    let mut ann = Out(Vec::new());
    ann.u2(1);
    ann.u2(s.annotation);
    ann.u2(1);
    ann.u2(22);
    ann.u1(b'[');
    ann.u2(2);
    ann.u1(b'@');
    ann.u2(27);
    ann.u2(0);
    ann.u1(b'I');
    ann.u2(5);
    o.attr(26, &ann.0);
    let mut rec = Out(Vec::new());
    rec.u2(1);
    rec.u2(s.component.0);
    rec.u2(s.component.1);
    rec.u2(0);
    o.attr(28, &rec.0);
    o.0
}

pub fn field_type(i: u16) -> Option<&'static str> {
    text(i).filter(|t| field_end(t.as_bytes(), 0) == Some(t.len()))
}

/// what the class file says, or None if it is malformed
fn meaning(s: &Spec) -> Option<ClassFile> {
    let own = |s: &str| s.to_string();
    let mut parameters = Vec::new();
    for (i, (name, flags)) in s.params.iter().enumerate() {
        let n = if *name == 0 { ["arg0", "arg1", "arg2", "arg3"][i] } else { text(*name)? };
        parameters.push(MethodParameter { name: own(n), access_flags: *flags });
    }
    // (int, long, object): the long takes two slots, and the receiver one
    let first = if s.method_flags & 8 != 0 { 0 } else { 1 };
    let slots = match s.method_type {
        10 => vec![first, first + 1, first + 3],
        34 => vec![first, first + 1, first + 3],
        35 => vec![first, first + 1, first + 3, first + 4],
        _ => return None,
    };
    if parameters.len() > slots.len() {
        return None;
    }
    for (_, name, _) in &s.locals {
        text(*name)?;
    }
    for i in parameters.len()..slots.len() {
        let mut name = own(["arg0", "arg1", "arg2", "arg3"][i]);
        for (start, local, slot) in s.locals.iter().rev() {
            if *slot == slots[i] && *start == 0 {
                name = own(text(*local)?);
            }
        }
        parameters.push(MethodParameter { name, access_flags: 0 });
    }
    let method = MemberInfo {
        access_flags: s.method_flags,
        name: own(text(s.method_name)?),
        descriptor: own(text(s.method_type)?),
        signature: None,
        exceptions: vec![own(class_at(s.exception)?)],
        parameters,
        annotations: Vec::new(),
        first_line: Some(if s.lines[0] < s.lines[1] { s.lines[0] } else { s.lines[1] }),
    };
    let field = MemberInfo {
        access_flags: s.field_flags,
        name: own(text(s.field_name)?),
        descriptor: own(field_type(s.field_type)?),
        signature: Some(own(text(s.signature)?)),
        exceptions: Vec::new(),
        parameters: Vec::new(),
        annotations: Vec::new(),
        first_line: None,
    };
    Some(ClassFile {
        minor_version: 0,
        major_version: 61,
        access_flags: s.flags,
        name: own(class_at(s.this)?),
        super_name: if s.sup == 0 { None } else { Some(own(class_at(s.sup)?)) },
        interfaces: vec![own(class_at(s.interface)?)],
        fields: vec![field],
        methods: vec![method],
        source_file: Some(own(text(s.source)?)),
        signature: None,
        annotations: vec![AnnotationInfo { descriptor: own(field_type(s.annotation)?) }],
        inner_classes: vec![InnerClassInfo {
            inner_class: own(class_at(s.inner.0)?),
            outer_class: if s.inner.1 == 0 { None } else { Some(own(class_at(s.inner.1)?)) },
            inner_name: if s.inner.2 == 0 { None } else { Some(own(text(s.inner.2)?)) },
            access_flags: s.inner.3,
        }],
        record_components: vec![RecordComponentInfo {
            name: own(text(s.component.0)?),
            descriptor: own(field_type(s.component.1)?),
            signature: None,
            annotations: Vec::new(),
        }],
        module_name: None,
    })
}

#[no_mangle]
pub extern "C" fn h_class_file() {
    let mut s = plain();
    match sx::param(0, 0) {
        0 => {
            s.this = sx::u16();
            s.sup = sx::u16();
            s.flags = sx::u16();
        }
        1 => {
            s.interface = sx::u16();
            s.exception = sx::u16();
            s.lines = [sx::u16(), sx::u16()];
        }
        2 => {
            s.field_flags = sx::u16();
            s.field_name = sx::u16();
            s.field_type = sx::u16();
            s.method_flags = sx::u16();
        }
        3 => {
            // names of parameters from the debug information
            s.method_flags = sx::u16();
            s.method_type = sx::pick(&[10, 34, 35]);
            s.locals = [(sx::u16(), 22, sx::u16()), (sx::u16(), 23, sx::u16()), (sx::u16(), 11, 1)];
        }
        4 => {
            s.order = sx::flag();
            s.method_flags = sx::u16();
            for _ in 0..sx::choice(5) {
                s.params.push((sx::range(0, 31) as u16, sx::u16()));
                if s.params.len() > 1 {
                    sx::assume(s.params[s.params.len() - 1].0 < 16 || s.params[s.params.len() - 1].0 == 22);
                }
            }
        }
        5 => {
            s.inner = (sx::u16(), sx::u16(), sx::u16(), sx::u16());
        }
        6 => {
            s.annotation = sx::u16();
            s.component = (sx::u16(), sx::u16());
        }
        _ => {
            s.signature = sx::u16();
            s.source = sx::u16();
            s.method_name = sx::u16();
            s.method_type = sx::u16();
        }
    }
    let bytes = build(&s);
    let got = parse_class(&bytes, ClassLimits::default());
    match meaning(&s) {
        None => {
            sx::cover("malformed");
            sx::check(got.is_err(), "a malformed class file is accepted");
        }
        Some(want) => {
            sx::cover("well-formed");
            match got {
                Err(_) => sx::fail("a well-formed class file is refused"),
                Ok(got) => {
                    sx::check(got == want, "a class file is read as something else");
                    let m = &got.methods[0];
                    let f = m.access_flags;
                    let v = if f & 1 != 0 {
                        Visibility::Public
                    } else if f & 4 != 0 {
                        Visibility::Protected
                    } else if f & 2 != 0 {
                        Visibility::Private
                    } else {
                        Visibility::Package
                    };
                    sx::check(m.visibility() == v, "the visibility of a method is wrong");
                    sx::check(m.is_static() == (f & 8 != 0), "a method is wrongly called static");
                }
            }
        }
    }
}

/// a class file cut off, continued or damaged in one place
#[no_mangle]
pub extern "C" fn h_class_damaged() {
    let mut s = plain();
    s.params = vec![(22, 0), (0, 0)];
    let mut bytes = build(&s);
    match sx::param(0, 0) {
        0 => {
            let n = sx::concretize(sx::range(0, bytes.len() as u64 - 1)) as usize;
            bytes.truncate(n);
            sx::cover("cut off");
            sx::check(parse_class(&bytes, ClassLimits::default()).is_err(), "a class file that is cut off is accepted");
        }
        1 => {
            bytes.push(sx::u8());
            sx::cover("continued");
            sx::check(parse_class(&bytes, ClassLimits::default()).is_err(), "a class file with trailing bytes is accepted");
        }
        _ => {
            // any byte after the constants replaced by any other: accepted or refused, but read to an end
            let start = sx::param(1, 0) as usize;
            let end = (sx::param(2, bytes.len() as u64) as usize).min(bytes.len());
            let at = start + sx::choice((end - start) as u64) as usize;
            bytes[at] = sx::u8();
            sx::cover("damaged");
            let _ = parse_class(&bytes, ClassLimits::default());
        }
    }
}

/// limits: a class file is accepted exactly if everything counted in it stays within them
#[no_mangle]
pub extern "C" fn h_class_limits() {
    let s = plain();
    let bytes = build(&s);
    let l = ClassLimits {
        max_class_bytes: sx::range(bytes.len() as u64 - 2, bytes.len() as u64 + 1) as usize,
        max_constant_pool_entries: sx::range(POOL.len() as u64 - 2, POOL.len() as u64 + 1) as usize,
        max_members: sx::range(0, 7) as usize,
        max_attributes: sx::range(8, 15) as usize,
        max_attribute_bytes: sx::range(0, 127) as usize,
        max_annotations: sx::range(0, 3) as usize,
        max_annotation_depth: sx::range(0, 3) as usize,
    };
    // the longest attribute is the code: 22 bytes, line table 6+10, variable table 6+32
    let ok = bytes.len() <= l.max_class_bytes
        && POOL.len() <= l.max_constant_pool_entries
        && l.max_members >= 3
        && l.max_attributes >= 11
        && l.max_attribute_bytes >= 76
        && l.max_annotations >= 2
        && l.max_annotation_depth >= 2;
    let got = parse_class(&bytes, l);
    if ok {
        sx::cover("within the limits");
        sx::check(got.is_ok(), "a class file within the limits is refused");
    } else {
        sx::cover("beyond the limits");
        sx::check(matches!(got, Err(MetadataError::LimitExceeded(_))), "a class file beyond the limits is accepted");
    }
}
