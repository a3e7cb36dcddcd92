//! C03 / C04: the type algebra against a value semantics.
//!
//! A type denotes a set of Ruby values; `has` below is that denotation, written
//! from Ruby's own meaning. Everything the algebra builds or decides is judged
//! by it, over symbolic names, keys and values.
use crate::sx;
use ruby_analysis::core::*;

#[derive(Clone, Debug)]
pub enum Val {
    Nil,
    True,
    False,
    Int,
    Sym(u8),
    Str(u8),
    Arr(Vec<Val>),
    Hash(Vec<(Val, Val)>),
}

fn one(b: u8) -> String {
    unsafe { String::from_utf8_unchecked(vec![b]) }
}
fn lower() -> u8 {
    sx::range(b'a' as u64, b'z' as u64) as u8
}

pub fn class_name(v: &Val) -> &'static str {
    match v {
        Val::Nil => "NilClass",
        Val::True => "TrueClass",
        Val::False => "FalseClass",
        Val::Int => "Integer",
        Val::Sym(_) => "Symbol",
        Val::Str(_) => "String",
        Val::Arr(_) => "Array",
        Val::Hash(_) => "Hash",
    }
}

fn is_key(k: &LiteralKey, v: &Val) -> bool {
    match (k, v) {
        (LiteralKey::Symbol(s), Val::Sym(b)) | (LiteralKey::String(s), Val::Str(b)) => s.len() == 1 && s.as_bytes()[0] == *b,
        _ => false,
    }
}

/// does the value belong to the type
pub fn has(t: &RubyType, v: &Val) -> bool {
    match t {
        RubyType::Class(n) => n.to_string() == class_name(v),
        RubyType::Module(_) | RubyType::ClassReference(_) | RubyType::ModuleReference(_) => false,
        RubyType::Literal(l) => match (&**l, v) {
            (LiteralValue::Symbol(s), Val::Sym(b)) | (LiteralValue::String(s), Val::Str(b)) => s.len() == 1 && s.as_bytes()[0] == *b,
            _ => false,
        },
        RubyType::Array(es) => match v {
            Val::Arr(vs) => vs.iter().all(|v| es.iter().any(|e| has(e, v))),
            _ => false,
        },
        RubyType::Hash(ks, vs) => match v {
            Val::Hash(h) => h.iter().all(|(k, v)| ks.iter().any(|t| has(t, k)) && vs.iter().any(|t| has(t, v))),
            _ => false,
        },
        RubyType::Shape(s) => shape_has(s, v),
        RubyType::Union(ms) => ms.iter().any(|m| has(m, v)),
        // nothing is promised about an unknown value
        RubyType::Unknown => true,
    }
}

pub fn shape_has(s: &ShapeType, v: &Val) -> bool {
    let Val::Hash(h) = v else { return false };
    for f in s.fields() {
        match h.iter().find(|(k, _)| is_key(f.key(), k)) {
            Some((_, v)) => {
                if !has(f.value(), v) {
                    return false;
                }
            }
            None => {
                if f.is_required() {
                    return false;
                }
            }
        }
    }
    for (k, v) in h {
        if s.fields().iter().any(|f| is_key(f.key(), k)) {
            continue;
        }
        match s.rest() {
            Some(r) => {
                if !(has(r.key(), k) && has(r.value(), v)) {
                    return false;
                }
            }
            None => {
                if s.is_exact() {
                    return false;
                }
            }
        }
    }
    true
}

fn sym(b: u8) -> RubyType {
    RubyType::Literal(Box::new(LiteralValue::symbol(one(b))))
}
fn str(b: u8) -> RubyType {
    RubyType::Literal(Box::new(LiteralValue::string(one(b))))
}

/// a type that contains no union and no collection; names of literals are symbolic
fn leaf(n: u64) -> RubyType {
    match sx::choice(n) {
        0 => RubyType::nil_class(),
        1 => sym(lower()),
        2 => RubyType::symbol(),
        3 => RubyType::integer(),
        4 => str(lower()),
        5 => RubyType::string(),
        6 => RubyType::true_class(),
        _ => RubyType::false_class(),
    }
}
fn small_shape(key: u8, exact: bool) -> RubyType {
    RubyType::Shape(Box::new(
        ShapeType::try_new(
            [ShapeField::required(LiteralKey::symbol(one(key)), RubyType::integer())],
            None,
            if exact { ShapeExactness::Exact } else { ShapeExactness::Open },
            ShapeStability::TrackedMutable,
        )
        .unwrap(),
    ))
}

/// one level of structure over leaves; unions are built as the project builds them
fn node(k: u64) -> RubyType {
    match sx::choice(k) {
        0 => leaf(6),
        1 => RubyType::union([leaf(4), leaf(4)]),
        2 => RubyType::Array(RubyType::canonical_union_members([leaf(3)])),
        3 => RubyType::Hash(vec![leaf(3)], vec![leaf(2)]),
        4 => small_shape(lower(), sx::flag()),
        5 => RubyType::Unknown,
        6 => RubyType::Array(RubyType::canonical_union_members([leaf(3), leaf(3)])),
        7 => RubyType::Hash(RubyType::canonical_union_members([leaf(3), leaf(3)]), RubyType::canonical_union_members([leaf(2), leaf(2)])),
        _ => RubyType::array_of(RubyType::Unknown),
    }
}

fn atom(n: u64) -> Val {
    match sx::choice(n) {
        0 => Val::Sym(lower()),
        1 => Val::Nil,
        2 => Val::Int,
        3 => Val::Str(lower()),
        4 => Val::True,
        _ => Val::False,
    }
}
fn value() -> Val {
    match sx::choice(4) {
        0 => atom(5),
        1 => Val::Arr(vec![]),
        2 => Val::Arr(vec![atom(3)]),
        _ => Val::Hash(vec![(Val::Sym(lower()), atom(3))]),
    }
}

fn canonical(t: &RubyType) -> bool {
    match t {
        RubyType::Union(ms) => {
            ms.len() >= 2
                && ms.iter().all(|m| !matches!(m, RubyType::Union(_) | RubyType::Unknown))
                && (1..ms.len()).all(|i| ms[i - 1] < ms[i])
        }
        _ => true,
    }
}
fn unknown_in(t: &RubyType) -> bool {
    match t {
        RubyType::Unknown => true,
        RubyType::Union(m) => m.iter().any(unknown_in),
        _ => false,
    }
}

/// p0 = number of alternatives, p1 = kinds of alternative
#[no_mangle]
pub extern "C" fn h_union() {
    let n = sx::param(0, 2) as usize;
    let kinds = sx::param(1, 6);
    let ts: Vec<RubyType> = (0..n).map(|_| node(kinds)).collect();
    let u = RubyType::union(ts.clone());
    sx::check(canonical(&u), "a union is flat, sorted, free of duplicates and of Unknown");
    if ts.iter().any(unknown_in) {
        sx::check(u == RubyType::Unknown, "an Unknown alternative makes the union Unknown");
        sx::cover("unknown alternative");
    } else {
        sx::check(u != RubyType::Unknown, "a union of known alternatives is known");
        let v = value();
        let want = ts.iter().any(|t| has(t, &v));
        sx::check(has(&u, &v) == want, "a union holds exactly the values of its alternatives");
        if want {
            sx::cover("value in the union");
        } else {
            sx::cover("value outside the union");
        }
    }
}

/// order, grouping and repetition of the alternatives do not matter
#[no_mangle]
pub extern "C" fn h_union_order() {
    let n = sx::param(0, 2) as usize;
    let kinds = sx::param(1, 6);
    let ts: Vec<RubyType> = (0..n).map(|_| node(kinds)).collect();
    let u = RubyType::union(ts.clone());
    let mut r = ts.clone();
    r.reverse();
    sx::check(RubyType::union(r) == u, "a union does not depend on the order of its alternatives");
    sx::check(RubyType::union(ts.iter().chain(ts.iter()).cloned()) == u, "repeating alternatives changes nothing");
    let mut acc = ts[0].clone();
    for t in &ts[1..] {
        acc = acc.union_with(t);
    }
    sx::check(acc == u, "joining one at a time gives the union");
    let mut acc = ts[n - 1].clone();
    for t in ts[..n - 1].iter().rev() {
        acc = t.union_with(&acc);
    }
    sx::check(acc == u, "joining from the other end gives the union");
    sx::check(RubyType::union([u.clone()]) == u && u.union_with(&u) == u, "a union joined with itself is itself");
    let members = RubyType::canonical_union_members(ts.clone());
    match &u {
        RubyType::Union(m) => sx::check(&members == m, "members of a collection are the members of the union"),
        t => sx::check(members.len() == 1 && &members[0] == t, "members of a collection are the members of the union"),
    }
    let proven = RubyType::union_from_proven(ts.iter(), |t| Some(t.clone()));
    if ts.iter().any(|t| *t == RubyType::Unknown) {
        sx::check(proven.is_none(), "an unproven alternative is not dropped");
    } else {
        sx::check(proven == Some(u.clone()), "proven alternatives give their union");
        sx::cover("proven");
    }
    let miss = sx::range(0, n as u64 - 1) as usize;
    let mut i = 0;
    let partial = RubyType::union_from_proven(ts.iter(), |t| {
        i += 1;
        if i - 1 == miss { None } else { Some(t.clone()) }
    });
    sx::check(partial.is_none(), "a missing alternative makes the whole union unproven");
}

/// more complete shapes than the documented limit give Unknown, never a subset
#[no_mangle]
pub extern "C" fn h_union_shapes() {
    let n = sx::param(0, 10) as usize;
    let mut key = b'a';
    let mut ts = vec![small_shape(key, true)];
    let mut distinct = 1;
    for _ in 1..n {
        if sx::bool() {
            key += 1;
            distinct += 1;
        }
        ts.push(small_shape(key, true));
    }
    ts.push(RubyType::integer());
    let u = RubyType::union(ts.clone());
    if distinct > MAX_SHAPE_UNION_VARIANTS {
        sx::check(u == RubyType::Unknown, "too many shapes give Unknown");
        sx::cover("too many shapes");
    } else {
        match &u {
            RubyType::Union(m) => sx::check(m.len() == distinct + 1 && ts.iter().all(|t| m.contains(t)), "every shape is kept"),
            _ => sx::fail("every shape is kept"),
        }
        sx::cover("all kept");
    }
}

/// nil handling and subtraction (used by narrowing)
#[no_mangle]
pub extern "C" fn h_nil() {
    let kinds = sx::param(0, 6);
    let t = if sx::flag() { node(kinds) } else { RubyType::union([node(2), leaf(6)]) };
    let v = value();
    let nil = matches!(v, Val::Nil);
    let known = t != RubyType::Unknown;
    let o = RubyType::optional(t.clone());
    sx::check(canonical(&o), "optional is canonical");
    sx::check(o == RubyType::union([t.clone(), RubyType::nil_class()]), "optional is the union with nil");
    sx::check(t.is_nilable() == (known && has(&t, &Val::Nil)), "nilable means nil is a value");
    sx::check(t.clone().make_nilable() == o, "making nilable adds nil once");
    let r = t.clone().remove_nil();
    sx::check(canonical(&r), "removing nil keeps the type canonical");
    if known && r != RubyType::Unknown {
        sx::check(has(&r, &v) == (has(&t, &v) && !nil), "removing nil removes nil and nothing else");
        sx::cover("nil removed");
    } else if known {
        sx::check(t == RubyType::nil_class(), "only nil alone becomes unknown");
    }
    let s = if sx::flag() { leaf(6) } else { node(5) };
    if !matches!(s, RubyType::Union(_)) && known {
        let d = t.subtract(&s);
        sx::check(canonical(&d), "subtraction keeps the type canonical");
        if d != RubyType::Unknown {
            sx::check(!has(&d, &v) || has(&t, &v), "subtraction adds nothing");
            sx::check(!has(&t, &v) || has(&s, &v) || has(&d, &v), "subtraction removes only values of the subtracted type");
            if let RubyType::Union(ms) = &d {
                sx::check(!ms.contains(&s), "the subtracted alternative is gone");
            }
            sx::cover("subtracted");
        } else {
            sx::check(t == s, "only a type minus itself becomes unknown");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_widen() {
    let kinds = sx::param(0, 8);
    let t = node(kinds);
    let w = t.widen_literals();
    sx::check(canonical(&w), "widening keeps the type canonical");
    let v = value();
    if w != RubyType::Unknown {
        sx::check(!has(&t, &v) || has(&w, &v), "widening loses no value");
        let other = match &v {
            Val::Sym(_) => Some(Val::Sym(lower())),
            Val::Str(_) => Some(Val::Str(lower())),
            _ => None,
        };
        if let Some(o) = other {
            sx::check(has(&w, &v) == has(&w, &o), "no literal is left after widening");
            sx::cover("literal widened");
        }
        sx::check(w.widen_literals() == w, "widening is idempotent");
    } else {
        sx::check(t == RubyType::Unknown, "a known type widens to a known type");
    }
}

// ---------------------------------------------------------------- C04

fn field_type(n: u64) -> RubyType {
    match sx::choice(n) {
        0 => RubyType::integer(),
        1 => RubyType::union([RubyType::integer(), RubyType::nil_class()]),
        2 => sym(lower()),
        _ => RubyType::symbol(),
    }
}
fn key2() -> LiteralKey {
    let b = sx::range(b'a' as u64, b'b' as u64) as u8;
    if sx::param(6, 0) == 1 && sx::flag() { LiteralKey::string(one(b)) } else { LiteralKey::symbol(one(b)) }
}
fn shape(fields: usize, ft: u64) -> ShapeType {
    let mut fs = Vec::new();
    for _ in 0..fields {
        let t = field_type(ft);
        let k = key2();
        fs.push(if sx::flag() { ShapeField::required(k, t) } else { ShapeField::optional(k, t) });
    }
    let (exact, rest) = match sx::choice(4) {
        0 => (ShapeExactness::Exact, None),
        1 => (ShapeExactness::Open, None),
        2 => (ShapeExactness::Open, Some(ShapeRest::new(RubyType::symbol(), field_type(2)))),
        _ => (ShapeExactness::Open, Some(ShapeRest::new(RubyType::string(), field_type(2)))),
    };
    match ShapeType::try_new(fs, rest, exact, if sx::flag() { ShapeStability::Frozen } else { ShapeStability::TrackedMutable }) {
        Ok(s) => s,
        Err(_) => {
            sx::assume(false);
            unreachable!()
        }
    }
}
fn table(n: usize) -> Val {
    let mut h: Vec<(Val, Val)> = Vec::new();
    for i in 0..n {
        let b = sx::range(b'a' as u64, b'c' as u64) as u8;
        let k = if sx::flag() { Val::Sym(b) } else { Val::Str(b) };
        for (p, _) in &h[..i] {
            match (p, &k) {
                (Val::Sym(x), Val::Sym(y)) | (Val::Str(x), Val::Str(y)) => sx::assume(x != y),
                _ => {}
            }
        }
        let v = atom(3);
        h.push((k, v));
    }
    Val::Hash(h)
}

/// p0,p1 = fields of the two shapes, p2 = entries of the value, p3 = field types
#[no_mangle]
pub extern "C" fn h_shape_subtype() {
    let a = shape(sx::param(0, 1) as usize, sx::param(3, 2));
    let b = shape(sx::param(1, 2) as usize, sx::param(3, 2));
    let v = table(sx::param(2, 1) as usize);
    let (ta, tb) = (RubyType::Shape(Box::new(a.clone())), RubyType::Shape(Box::new(b.clone())));
    let sub = ta.is_subtype_of(&tb);
    if sub {
        if shape_has(&a, &v) {
            sx::check(shape_has(&b, &v), "every value of a shape belongs to the shapes it is accepted for");
            sx::cover("accepted");
        }
    } else {
        sx::cover("rejected");
    }
    sx::check(ta.is_subtype_of(&ta), "a shape is accepted for itself");
    if a.is_exact() && b.is_exact() {
        // exact shapes have a finite description, so acceptance is decided in both directions
        let want = b.fields().iter().all(|f| match a.field(f.key()) {
            Some(g) => (g.is_required() || !f.is_required()) && g.value().is_subtype_of(f.value()),
            None => !f.is_required(),
        }) && a.fields().iter().all(|f| b.field(f.key()).is_some());
        sx::check(sub == want, "exact shapes are compared field by field");
    }
    let g = a.generic_hash_type();
    if !RubyType::contains_unknown(&g) && !a.fields().is_empty() {
        if shape_has(&a, &v) {
            sx::check(has(&g, &v), "the generic Hash view of a shape holds its values");
            sx::cover("generic view");
        }
        sx::check(ta.is_subtype_of(&g), "a shape is accepted for its generic Hash view");
    }
}

/// general subtyping: acceptance is never wrong about a value
#[no_mangle]
pub extern "C" fn h_subtype() {
    let ka = sx::param(0, 8);
    let kb = sx::param(1, 8);
    let a = node(ka);
    let b = node(kb);
    let v = value();
    let sub = a.is_subtype_of(&b);
    let known = !RubyType::contains_unknown(&a) && !RubyType::contains_unknown(&b);
    if sub && known && has(&a, &v) {
        sx::check(has(&b, &v), "every value of a type belongs to the types it is accepted for");
        sx::cover("accepted");
    }
    if a == RubyType::Unknown || b == RubyType::Unknown {
        sx::check(sub == (a == b), "Unknown is accepted for nothing but itself, and accepts nothing else");
    }
    sx::check(a.is_subtype_of(&a), "a type is accepted for itself");
    let u = RubyType::union([a.clone(), b.clone()]);
    if u != RubyType::Unknown {
        sx::check(a.is_subtype_of(&u) && b.is_subtype_of(&u), "an alternative is accepted for the union");
        let w = a.common_supertype(&b);
        if known {
            sx::check(!(has(&a, &v) || has(&b, &v)) || has(&w, &v), "a common supertype holds both types' values");
        }
    }
    sx::check(a.is_compatible_with(&b) == b.is_compatible_with(&a), "compatibility is symmetric");
}

/// p0 fields, p1 nesting: what a shape keeps of the evidence it was built from
#[no_mangle]
pub extern "C" fn h_shape_new() {
    let n = sx::param(0, 3) as usize;
    let mut keys = Vec::new();
    let mut fs = Vec::new();
    let mut unproven = false;
    for _ in 0..n {
        let b = sx::range(b'a' as u64, b'd' as u64) as u8;
        let s = sx::flag();
        let k = if s { LiteralKey::string(one(b)) } else { LiteralKey::symbol(one(b)) };
        let t = match sx::choice(3) {
            0 => RubyType::integer(),
            1 => RubyType::array_of(RubyType::Unknown),
            _ => RubyType::Hash(vec![RubyType::symbol()], vec![RubyType::string()]),
        };
        unproven |= matches!(t, RubyType::Array(_));
        let req = sx::bool();
        fs.push(if req { ShapeField::required(k.clone(), t.clone()) } else { ShapeField::optional(k.clone(), t.clone()) });
        keys.push((s, b, t, req, k));
    }
    let exact = sx::flag();
    let rest = match sx::choice(3) {
        0 => None,
        1 => Some(ShapeRest::new(RubyType::symbol(), RubyType::integer())),
        _ => Some(ShapeRest::new(RubyType::symbol(), RubyType::Unknown)),
    };
    let has_rest = rest.is_some();
    let rest_unknown = rest.as_ref().is_some_and(|r| *r.value() == RubyType::Unknown);
    let dup = (0..n).any(|i| (0..i).any(|j| keys[i].0 == keys[j].0 && keys[i].1 == keys[j].1));
    let r = ShapeType::try_new(
        fs,
        rest,
        if exact { ShapeExactness::Exact } else { ShapeExactness::Open },
        ShapeStability::Frozen,
    );
    let want = !dup && !unproven && !(exact && has_rest) && !rest_unknown;
    sx::check(r.is_ok() == want, "a shape is built exactly when its evidence is complete and consistent");
    if let Ok(s) = r {
        sx::check(s.fields().len() == n && s.is_exact() == exact && s.is_frozen() && s.rest().is_some() == has_rest, "a shape keeps its form");
        for (_, _, t, req, k) in &keys {
            match s.field(k) {
                Some(f) => sx::check(f.value() == t && f.is_required() == *req && f.key() == k, "a shape keeps every field as given"),
                None => sx::fail("a shape keeps every field as given"),
            }
        }
        let b = sx::range(b'a' as u64, b'd' as u64) as u8;
        let k = LiteralKey::symbol(one(b));
        sx::check(s.field(&k).is_some() == keys.iter().any(|x| !x.0 && x.1 == b), "a shape has no field it was not given");
        sx::cover("built");
    } else {
        sx::cover("refused");
    }
}

/// bounds on width and depth are enforced exactly
#[no_mangle]
pub extern "C" fn h_shape_bounds() {
    let n = sx::range(30, 34);
    let n = sx::concretize(n) as usize;
    let fs: Vec<ShapeField> = (0..n).map(|i| ShapeField::required(LiteralKey::symbol(one(b'0' + i as u8)), RubyType::integer())).collect();
    let r = ShapeType::try_new(fs, None, ShapeExactness::Exact, ShapeStability::Frozen);
    sx::check(r.is_ok() == (n <= MAX_SHAPE_FIELDS), "the field limit is exact");
    if let Ok(s) = &r {
        sx::check(s.fields().len() == n, "no field is dropped at the limit");
    }
    let d = sx::concretize(sx::range(1, 10)) as usize;
    let via = sx::choice(4);
    let mut t = RubyType::integer();
    let mut ok = true;
    for i in 0..d {
        let wrapped = match via {
            0 => t,
            1 => RubyType::array_of(t),
            2 => RubyType::hash_of(RubyType::symbol(), t),
            _ => RubyType::union([t, RubyType::nil_class()]),
        };
        match ShapeType::try_new([ShapeField::required(LiteralKey::symbol("k"), wrapped)], None, ShapeExactness::Exact, ShapeStability::Frozen) {
            Ok(s) => {
                sx::check(s.depth() == i + 1, "depth counts nested shapes");
                t = RubyType::Shape(Box::new(s));
            }
            Err(_) => {
                sx::check(i == MAX_SHAPE_DEPTH, "the depth limit is exact");
                ok = false;
                t = RubyType::integer();
                break;
            }
        }
    }
    let _ = t;
    sx::check(ok == (d <= MAX_SHAPE_DEPTH), "the depth limit is exact");
    sx::cover("bounds");
}
