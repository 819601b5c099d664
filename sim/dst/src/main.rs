#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! Deterministic simulation of vt6.rs.

mod app;
mod gen;
mod intercept;
mod kinds;
mod plan;
mod proto;
mod runner;
mod server;
mod session;
mod shrink;
mod special;
mod world;

#[global_allocator]
static ALLOC: simcore::alloc::TaggingAlloc = simcore::alloc::TaggingAlloc;

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        if simcore::in_coro().is_some() {
            let line = {
                let _g = simcore::alloc::harness();
                r.args().to_string()
            };
            special::on_log(&line);
        }
    }
    fn flush(&self) {}
}

fn main() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let _g = simcore::alloc::harness();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        if simcore::on_panic(&loc, &msg) {
            return;
        }
        if simcore::in_coro().is_none() {
            default(info);
        }
    }));
    std::process::exit(runner::main());
}
