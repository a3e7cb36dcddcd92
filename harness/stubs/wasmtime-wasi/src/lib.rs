#[derive(Default)]
pub struct WasiCtxBuilder;
impl WasiCtxBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn build_p1(&mut self) -> p1::WasiP1Ctx {
        p1::WasiP1Ctx
    }
}
pub mod p1 {
    pub struct WasiP1Ctx;
    pub fn add_to_linker_sync<T: 'static>(_: &mut wasmtime::Linker<T>, _: impl Fn(&mut T) -> &mut WasiP1Ctx + Copy + Send + Sync + 'static) -> wasmtime::Result<()> {
        Ok(())
    }
}
