use crate::sx;
use crate::ws::*;

#[no_mangle]
pub extern "C" fn h_constants() {
    Ws::warm();
    sx::cover("warm");
    let t = Text::new(
        "module M\n «# »X = 1\nend\nclass B\n «# »X = 2\nend\nmodule A\n «# »X = 3\n class C «#<» B\n «# »include M\n «# »X = 4\n  def r\n   X\n  end\n end\nend\n«# »X = 5\n",
    );
    let mut w = Ws::new();
    w.load(&[("/w/a.rb", &t.s)]);
    let d = w.definition("/w/a.rb", t.at("X\n  end", 0));
    let on = |k: usize| t.hole(k) != b'#';
    let (m, b, a, sup, inc, c, top) = (on(0), on(1), on(2), on(3), on(4), on(5), on(6));
    let want = if c {
        Some(t.at("X = 4", 0))
    } else if a {
        Some(t.at("X = 3", 0))
    } else if inc && m {
        Some(t.at("X = 1", 0))
    } else if sup && b {
        Some(t.at("X = 2", 0))
    } else if top {
        Some(t.at("X = 5", 0))
    } else {
        None
    };
    match want {
        Some(p) => {
            sx::check(d.len() == 1, "one definition");
            sx::check(d[0].start_byte == p, "the constant Ruby would find");
            sx::cover("found");
        }
        None => {
            sx::check(d.is_empty(), "no definition");
            sx::cover("missing");
        }
    }
}
