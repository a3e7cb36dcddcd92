//! C08: local variables. A program is written piece by piece with symbolic
//! variable names; which occurrences share a variable is worked out here from
//! Ruby's scoping rules and compared with what the server answers at each of them.
use crate::srv::*;
use crate::sx;
use ruby_fast_lsp::capabilities;
use tower_lsp::lsp_types::*;

struct Occ {
    off: u32,
    var: Option<usize>,
    read: bool,
}

pub struct P {
    t: Vec<u8>,
    scopes: Vec<(bool, Vec<(u8, usize)>)>,
    vars: usize,
    occ: Vec<Occ>,
    fixed: Vec<usize>,
}

const NAMES: &[u8] = b"ab";

fn name(n: usize) -> u8 {
    crate::text::one_of(&NAMES[..n])
}

impl P {
    fn new() -> P {
        P { t: vec![], scopes: vec![(true, vec![])], vars: 0, occ: vec![], fixed: vec![] }
    }
    fn s(&mut self, x: &str) -> &mut P {
        self.t.extend_from_slice(x.as_bytes());
        self
    }
    fn open(&mut self, hard: bool) -> &mut P {
        self.scopes.push((hard, vec![]));
        self
    }
    fn close(&mut self) -> &mut P {
        self.scopes.pop();
        self
    }
    fn find(&self, n: u8) -> Option<usize> {
        for (hard, v) in self.scopes.iter().rev() {
            if let Some((_, id)) = v.iter().find(|(x, _)| *x == n) {
                return Some(*id);
            }
            if *hard {
                return None;
            }
        }
        None
    }
    fn emit(&mut self, n: u8, var: Option<usize>, read: bool) {
        self.occ.push(Occ { off: self.t.len() as u32, var, read });
        self.t.push(n);
    }
    /// an assignment target
    fn w(&mut self) -> &mut P {
        let n = name(2);
        let id = match self.find(n) {
            Some(i) => i,
            None => {
                self.vars += 1;
                let id = self.vars;
                self.scopes.last_mut().unwrap().1.push((n, id));
                id
            }
        };
        self.emit(n, Some(id), false);
        self
    }
    /// a read, or a call when no such variable is in scope
    fn r(&mut self) -> &mut P {
        let n = name(2);
        let v = self.find(n);
        self.emit(n, v, true);
        self
    }
    /// a parameter or block-local: always a new variable of this scope
    fn p(&mut self) -> &mut P {
        let n = name(2);
        let own = &mut self.scopes.last_mut().unwrap().1;
        sx::assume(!own.iter().any(|(x, _)| *x == n));
        self.vars += 1;
        let id = self.vars;
        own.push((n, id));
        self.emit(n, Some(id), false);
        self
    }
}

fn program(k: u64) -> P {
    let mut p = P::new();
    match k {
        // blocks see and shadow outer variables
        0 => {
            p.w().s(" = 1\n").s("[1].each { |").open(false).p().s("|\n").w().s(" = 2\n").r().s("\n}\n").close().r().s("\n");
        }
        // methods and classes see none of them
        1 => {
            p.w().s(" = 1\ndef m(").open(true).p().s(")\n").w().s(" = 2\n").r().s("\nend\n").close();
            p.s("class C\n").open(true).w().s(" = 3\n").r().s("\nend\n").close().r().s("\n");
        }
        // nested blocks
        2 => {
            p.w().s(" = 1\nf {\n").open(false).w().s(" = 2\ng do |").open(false).p().s("|\n").r().s("\nend\n").close().r().s("\n}\n").close().r().s("\n");
        }
        // conditionals and loops open no scope
        3 => {
            p.s("if f\n").w().s(" = 1\nelse\n").w().s(" = 2\nend\nwhile f\n").w().s(" = 3\nend\nfor ").w().s(" in [1] do\n").r().s("\nend\n").r().s("\n");
        }
        // lambdas, defaults, splats, block parameters
        4 => {
            p.w().s(" = 1\nl = ->(").open(false).p().s(", z = ").r().s(") { ").r().s(" }\n").close().r().s("\n");
        }
        5 => {
            p.s("def m(*").open(true).p().s(", &").p().s(")\n").r().s("\n").r().s(".x\nend\n").close().r().s("\n");
        }
        // compound and multiple assignment
        6 => {
            p.w().s(" ||= 1\n").w().s(", ").w().s(" = 1, 2\n").w().s(" += 1\n").r().s("\n");
        }
        // interpolation, modifiers, rescue
        7 => {
            p.w().s(" = 1\nbegin\n\"#{").r().s("}\"\nrescue => ").w().s("\n").r().s("\nend\nf(").r().s(") if ").r().s("\n");
        }
        // block-local variables
        8 => {
            p.w().s(" = 1\nf { |z; ").open(false).p().s("|\n").w().s(" = 2\n").r().s("\n}\n").close().r().s("\n");
        }
        // expressions evaluated outside the scope they open
        9 => {
            p.w().s(" = Object\nclass << ").r().s("\n").open(true).w().s(" = 1\n").r().s("\nend\n").close().r().s("\n");
        }
        10 => {
            p.w().s(" = Object\nclass C < ").r().s("\n").open(true).w().s(" = 1\n").r().s("\nend\n").close().r().s("\n");
        }
        11 => {
            p.w().s(" = f\ndef ").r().s(".m(").open(true).p().s(")\n").r().s("\nend\n").close().r().s("\n");
        }
        // destructured block parameters, optional parameters
        12 => {
            p.w().s(" = 1\nf { |(").open(false).p().s(", z), y = ").r().s("|\n").r().s("\n}\n").close().r().s("\n");
        }
        // optional parameters of a method, rest in the middle
        13 => {
            p.s("def m(").open(true).p().s(", ").p().s(" = ").r().s(")\n").r().s("\n").w().s(" &&= 2\nend\n").close();
        }
        // pattern matching
        14 => {
            p.w().s(" = [1]\ncase ").r().s("\nin [").w().s(", *]\n").r().s("\nend\n").r().s("\n");
        }
        // receivers, arguments, indexing
        15 => {
            p.w().s(" = []\n").r().s(".push(").r().s(")\n").r().s("[").r().s("] = ").r().s("\n");
        }
        _ => unreachable!(),
    }
    p
}

pub const KINDS: u64 = 16;

fn spans(v: impl Iterator<Item = Range>, t: &str) -> Vec<u32> {
    let mut out: Vec<u32> = v
        .map(|r| {
            sx::check(r.start.line == r.end.line && r.end.character == r.start.character + 1, "a range covers exactly the variable's name");
            off(t, r.start)
        })
        .collect();
    out.sort();
    out
}

/// p0..p1 = programs, p2 = what to ask
#[no_mangle]
pub extern "C" fn h_locals() {
    let s = Srv::warm();
    let lo = sx::param(0, 0);
    let hi = sx::param(1, KINDS);
    let ask = sx::param(2, 7);
    let k = lo + sx::choice(hi - lo);
    let p = program(k);
    let t = unsafe { String::from_utf8_unchecked(p.t.clone()) };
    const F: &str = "/w/a.rb";
    s.file(F, &t);
    for o in &p.occ {
        let at = pos(&t, o.off);
        let same: Vec<u32> = p.occ.iter().filter(|x| o.var.is_some() && x.var == o.var).map(|x| x.off).collect();
        let Some(_) = o.var else { continue };
        if ask & 1 != 0 {
            let d = s.definition(F, at);
            if o.read {
                sx::check(!d.is_empty(), "a local variable read has a definition");
            }
            for d in &d {
                let at = off(&t, d.range.start);
                sx::check(p.occ.iter().any(|x| x.off == at && x.var == o.var && !x.read), "the definition is an assignment of that variable");
                sx::cover("definition");
            }
        }
        if ask & 2 != 0 {
            let h = block(capabilities::document_highlights::find_document_highlights(&s.s, &uri(F), at)).unwrap_or_default();
            let got = spans(h.iter().map(|x| x.range), &t);
            sx::check(got == same, "highlights are exactly the occurrences of the variable");
            sx::cover("highlights");
        }
        if ask & 4 != 0 {
            let e = block(capabilities::rename::handle_rename(
                &s.s,
                RenameParams { text_document_position: tdp(F, at), new_name: "q".into(), work_done_progress_params: Default::default() },
            ));
            match e.and_then(|e| e.changes) {
                None => sx::check(false, "a local variable can be renamed"),
                Some(c) => {
                    sx::check(c.len() == 1, "only the variable's file is edited");
                    let edits = &c[&uri(F)];
                    sx::check(edits.iter().all(|x| x.new_text == "q"), "the new name is inserted");
                    sx::check(spans(edits.iter().map(|x| x.range), &t) == same, "a rename edits exactly the occurrences of the variable");
                    sx::cover("rename");
                }
            }
        }
    }
}
