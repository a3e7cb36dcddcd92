//! Stand-in for the WebAssembly runtime: no module ever loads. The harnesses run
//! the language server without extensions, so nothing here is called.
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn no<T>() -> Result<T> {
    Err(Error("no WebAssembly runtime".into()))
}
#[derive(Default)]
pub struct Config;
impl Config {
    pub fn new() -> Self {
        Config
    }
    pub fn consume_fuel(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn wasm_exceptions(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn epoch_interruption(&mut self, _: bool) -> &mut Self {
        self
    }
}
#[derive(Clone)]
pub struct Engine;
impl Engine {
    pub fn new(_: &Config) -> Result<Self> {
        no()
    }
    pub fn increment_epoch(&self) {}
    pub fn precompile_compatibility_hash(&self) -> impl std::hash::Hash + '_ {
        0u64
    }
}
#[derive(Clone)]
pub struct Module;
impl Module {
    pub fn from_binary(_: &Engine, _: &[u8]) -> Result<Self> {
        no()
    }
    pub fn from_file(_: &Engine, _: impl AsRef<std::path::Path>) -> Result<Self> {
        no()
    }
    pub unsafe fn deserialize(_: &Engine, _: impl AsRef<[u8]>) -> Result<Self> {
        no()
    }
    pub fn serialize(&self) -> Result<Vec<u8>> {
        no()
    }
}
pub struct Store<T>(T);
impl<T> Store<T> {
    pub fn new(_: &Engine, t: T) -> Self {
        Store(t)
    }
    pub fn limiter(&mut self, _: impl FnMut(&mut T) -> &mut StoreLimits + Send + Sync + 'static) {}
    pub fn set_fuel(&mut self, _: u64) -> Result<()> {
        no()
    }
    pub fn get_fuel(&self) -> Result<u64> {
        no()
    }
    pub fn set_epoch_deadline(&mut self, _: u64) {}
}
pub trait AsContextMut {}
impl<T> AsContextMut for Store<T> {}
impl<T: AsContextMut> AsContextMut for &mut T {}
pub struct StoreLimits;
#[derive(Default)]
pub struct StoreLimitsBuilder;
impl StoreLimitsBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn memory_size(self, _: usize) -> Self {
        self
    }
    pub fn instances(self, _: usize) -> Self {
        self
    }
    pub fn tables(self, _: usize) -> Self {
        self
    }
    pub fn memories(self, _: usize) -> Self {
        self
    }
    pub fn trap_on_grow_failure(self, _: bool) -> Self {
        self
    }
    pub fn build(self) -> StoreLimits {
        StoreLimits
    }
}
pub struct Linker<T>(std::marker::PhantomData<T>);
impl<T> Linker<T> {
    pub fn new(_: &Engine) -> Self {
        Linker(std::marker::PhantomData)
    }
    pub fn instantiate(&self, _: impl AsContextMut, _: &Module) -> Result<Instance> {
        no()
    }
}
pub struct Instance;
impl Instance {
    pub fn get_memory(&self, _: impl AsContextMut, _: &str) -> Option<Memory> {
        None
    }
    pub fn get_typed_func<P, R>(&self, _: impl AsContextMut, _: &str) -> Result<TypedFunc<P, R>> {
        no()
    }
}
#[derive(Clone, Copy)]
pub struct Memory;
impl Memory {
    pub fn read(&self, _: impl AsContextMut, _: usize, _: &mut [u8]) -> Result<()> {
        no()
    }
    pub fn write(&self, _: impl AsContextMut, _: usize, _: &[u8]) -> Result<()> {
        no()
    }
}
pub struct TypedFunc<P, R>(std::marker::PhantomData<fn(P) -> R>);
impl<P, R> Clone for TypedFunc<P, R> {
    fn clone(&self) -> Self {
        TypedFunc(std::marker::PhantomData)
    }
}
impl<P, R> TypedFunc<P, R> {
    pub fn call(&self, _: impl AsContextMut, _: P) -> Result<R> {
        no()
    }
}
