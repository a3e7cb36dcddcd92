//! The language server itself: files are processed the way an opened or changed
//! document is, requests go through the server's own request handlers.
use crate::sx;
use ruby_fast_lsp::capabilities;
use ruby_fast_lsp::indexer::file_processor::FileProcessor;
use ruby_fast_lsp::server::RubyLanguageServer;
use std::future::Future;
use std::pin::pin;
use std::task::*;
use tower_lsp::lsp_types::*;

fn noop() -> Waker {
    fn c(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

pub fn block<F: Future>(f: F) -> F::Output {
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(f);
    for _ in 0..1000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("stuck");
}

pub struct Srv {
    pub s: RubyLanguageServer,
    fp: FileProcessor,
}

pub fn uri(p: &str) -> Url {
    Url::from_file_path(p).unwrap()
}

/// the LSP position of a byte offset (ASCII texts only)
pub fn pos(t: &str, off: u32) -> Position {
    let (mut l, mut c) = (0, 0);
    for b in &t.as_bytes()[..off as usize] {
        if *b == b'\n' {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
    }
    Position::new(l, c)
}

/// the byte offset of an LSP position (ASCII texts only)
pub fn off(t: &str, p: Position) -> u32 {
    let (mut l, mut o) = (0, 0);
    for b in t.as_bytes() {
        if l == p.line {
            break;
        }
        o += 1;
        l += (*b == b'\n') as u32;
    }
    o + p.character
}

pub fn tdp(p: &str, at: Position) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: TextDocumentIdentifier::new(uri(p)), position: at }
}

impl Srv {
    pub fn new() -> Srv {
        let s = RubyLanguageServer::default();
        let fp = FileProcessor::with_extension_registry(s.extension_registry.clone());
        Srv { s, fp }
    }
    /// the embedded core signatures are loaded once, before anything is symbolic
    pub fn warm() -> Srv {
        let w = Srv::new();
        w.file("/w/warm.rb", "class Foo\n  def bar\n    x = 1\n    x.zz\n  end\nend\nFoo.new.bar\n");
        Srv::new()
    }
    pub fn file(&self, p: &str, text: &str) {
        let r = self.fp.process_file(&uri(p), text, &self.s);
        sx::check(r.is_ok(), "a source file is processed");
    }
    pub fn definition(&self, p: &str, at: Position) -> Vec<Location> {
        match block(capabilities::definitions::find_definition_at_position(&self.s, uri(p), at)) {
            Some(r) => capabilities::definitions::definition_locations(r),
            None => vec![],
        }
    }
}
