//! Java archives: the classes a JVM of the given release would load.
use crate::classfile::{class_named};
use crate::sx;
use ruby_fast_lsp_jvm_metadata::*;

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

fn le2(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_le_bytes());
}

fn le4(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_le_bytes());
}

/// an archive of stored entries
fn zip(entries: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut central = Vec::new();
    for (name, body) in entries {
        let at = o.len() as u32;
        let c = crc(body);
        for (out, sig) in [(&mut o, 0x04034b50u32), (&mut central, 0x02014b50)] {
            le4(out, sig);
            if sig == 0x02014b50 {
                le2(out, 20);
            }
            le2(out, 20);
            le2(out, 0);
            le2(out, 0);
            le2(out, 0);
            le2(out, 0x21);
            le4(out, c);
            le4(out, body.len() as u32);
            le4(out, body.len() as u32);
            le2(out, name.len() as u16);
            le2(out, 0);
        }
        le2(&mut central, 0);
        le2(&mut central, 0);
        le2(&mut central, 0);
        le4(&mut central, 0);
        le4(&mut central, at);
        o.extend_from_slice(name.as_bytes());
        central.extend_from_slice(name.as_bytes());
        o.extend_from_slice(body);
    }
    let (at, n) = (o.len() as u32, central.len() as u32);
    o.extend_from_slice(&central);
    le4(&mut o, 0x06054b50);
    le2(&mut o, 0);
    le2(&mut o, 0);
    le2(&mut o, entries.len() as u16);
    le2(&mut o, entries.len() as u16);
    le4(&mut o, n);
    le4(&mut o, at);
    le2(&mut o, 0);
    o
}

/// which version of a class is read, for any release of the JDK
#[no_mangle]
pub extern "C" fn h_archive_release() {
    let jdk = sx::u16();
    let multi = sx::choice(6);
    let jmod = sx::param(0, 0) == 1;
    let mut entries = Vec::new();
    match multi {
        0 => {}
        1 => entries.push(("META-INF/MANIFEST.MF".to_string(), b"Manifest-Version: 1.0\r\nMulti-Release: true\r\n\r\n".to_vec())),
        2 => entries.push(("META-INF/MANIFEST.MF".to_string(), b"Manifest-Version: 1.0\nMulti-Release: false\n".to_vec())),
        // only the main section, before the first empty line, speaks for the archive
        3 => entries.push(("META-INF/MANIFEST.MF".to_string(), b"Manifest-Version: 1.0\r\n\r\nName: p/A.class\r\nMulti-Release: true\r\n".to_vec())),
        4 => entries.push(("META-INF/MANIFEST.MF".to_string(), b"Multi-Release: true\n\nName: p/A.class\nMulti-Release: false\n".to_vec())),
        _ => entries.push(("meta-inf/Manifest.mf".to_string(), b"Manifest-Version: 1.0\nmulti-release: TRUE\n".to_vec())),
    }
    // releases in an order that is neither numeric nor that of their names
    let mut have = Vec::new();
    for r in [11u16, 0, 9, 100, 21] {
        if sx::flag() {
            have.push(r);
            let name = if r == 0 { "p/A.class".to_string() } else { ["META-INF/versions/9/p/A.class", "META-INF/versions/11/p/A.class", "META-INF/versions/21/p/A.class", "META-INF/versions/100/p/A.class"][match r { 9 => 0, 11 => 1, 21 => 2, _ => 3 }].to_string() };
            let name = if jmod { format!("classes/{name}") } else { name };
            entries.push((name, class_named(b"p/A", 52 + r)));
        }
    }
    entries.push((if jmod { "classes/q/B.class" } else { "q/B.class" }.to_string(), class_named(b"q/B", 50)));
    entries.push(("META-INF/C.class".to_string(), class_named(b"C", 50)));
    entries.push(("p/notes.txt".to_string(), b"A".to_vec()));
    let mut bytes = if jmod { b"JM\x01\x00".to_vec() } else { Vec::new() };
    bytes.extend_from_slice(&zip(&entries));
    let got = parse_archive(&bytes, if jmod { ArchiveKind::Jmod } else { ArchiveKind::Jar }, jdk, ArchiveLimits::default());
    if jmod {
        // versions are not a matter of jmod files: such an entry is a class in the wrong place
        if have.iter().any(|r| *r != 0) {
            sx::check(got.is_err(), "a class is read from a place that does not match its name");
            return;
        }
    }
    let got = match got {
        Ok(g) => g,
        Err(_) => {
            sx::fail("a well-formed archive is refused");
            return;
        }
    };
    let on = multi == 1 || multi >= 4;
    let mut want: Option<u16> = None;
    for r in &have {
        if *r == 0 || (on && *r <= jdk) {
            if want.is_none() || want.unwrap() < *r {
                want = Some(*r);
            }
        }
    }
    let n = 1 + want.is_some() as usize;
    sx::check(got.classes.len() == n, "an archive is read with other classes than it has");
    let b = &got.classes[n - 1];
    sx::check(b.class.name == "q/B" && b.release.is_none(), "a class of an archive is missing");
    if let Some(r) = want {
        let a = &got.classes[0];
        sx::cover("class selected");
        sx::check(a.class.name == "p/A", "a class of an archive is missing");
        sx::check(a.class.major_version == 52 + r, "another version of a class is read than the JVM would load");
        sx::check(a.release == if r == 0 { None } else { Some(r) }, "the release of a class is wrong");
    } else {
        sx::cover("no version applies");
    }
}

/// limits: an archive is accepted exactly if everything counted in it stays within them
#[no_mangle]
pub extern "C" fn h_archive_limits() {
    let (a, b) = (class_named(b"A", 50), class_named(b"long/B", 50));
    let (na, nb) = (a.len() as u64, b.len() as u64);
    let bytes = zip(&[("A.class".to_string(), a), ("long/B.class".to_string(), b), ("notes".to_string(), vec![b'x'; 100])]);
    let n = bytes.len() as u64;
    let l = ArchiveLimits {
        max_archive_bytes: sx::range(n - 2, n + 1) as usize,
        max_entries: sx::range(0, 7) as usize,
        max_entry_bytes: sx::range(0, 127) as usize,
        max_total_decompressed_bytes: sx::range(0, 255) as usize,
        max_class_count: sx::range(0, 3) as usize,
        class: ClassLimits::default(),
    };
    let ok = n <= l.max_archive_bytes as u64
        && l.max_entries >= 3
        && l.max_entry_bytes as u64 >= nb
        && l.max_total_decompressed_bytes as u64 >= na + nb
        && l.max_class_count >= 2;
    let got = parse_archive(&bytes, ArchiveKind::Jar, 17, l);
    if ok {
        sx::cover("archive within the limits");
        sx::check(got.is_ok_and(|g| g.classes.len() == 2), "an archive within the limits is refused");
    } else {
        sx::cover("archive beyond the limits");
        sx::check(matches!(got, Err(ArchiveError::LimitExceeded(_))), "an archive beyond the limits is accepted");
    }
}

/// an archive with one symbolic byte anywhere in its structure, or cut off: read to an end
#[no_mangle]
pub extern "C" fn h_archive_damaged() {
    let entries = vec![("A.class".to_string(), class_named(b"A", 50)), ("B.class".to_string(), class_named(b"B", 50))];
    let mut bytes = zip(&entries);
    if sx::param(0, 0) == 1 {
        let n = sx::choice(bytes.len() as u64) as usize;
        bytes.truncate(n);
        sx::cover("cut off");
        sx::check(parse_archive(&bytes, ArchiveKind::Jar, 17, ArchiveLimits::default()).is_err(), "an archive that is cut off is accepted");
        return;
    }
    // the directory and the end record
    let start = bytes.len() - 22 - 2 * 53;
    let at = start + sx::choice((bytes.len() - start) as u64) as usize;
    bytes[at] = sx::u8();
    sx::cover("damaged");
    let _ = parse_archive(&bytes, ArchiveKind::Jar, 17, ArchiveLimits::default());
}

/// names that lead out of the archive are refused
#[no_mangle]
pub extern "C" fn h_archive_names() {
    let mut name = String::new();
    let pieces = ["a", "/", "..", "\\", ".", "b.class"];
    let n = sx::param(0, 3);
    for _ in 0..n {
        name.push_str(sx::pick(&pieces));
    }
    let bytes = zip(&[(name.clone(), b"x".to_vec())]);
    let got = parse_archive(&bytes, ArchiveKind::Jar, 17, ArchiveLimits::default());
    let bad = name.starts_with('/') || name.contains('\\') || name.split('/').any(|c| c == "..");
    if bad {
        sx::cover("leads out");
        sx::check(matches!(got, Err(ArchiveError::TraversingEntry(_))), "an entry that leads out of the archive is accepted");
    } else {
        sx::check(!matches!(got, Err(ArchiveError::TraversingEntry(_))), "a plain entry is refused as leading out of the archive");
    }
}
