//! A logger which formats everything it is given and throws it away, and can be
//! initialised again and again.
use std::fmt::Write;

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut s = String::new();
        let _ = write!(s, "{}", r.args());
    }
    fn flush(&self) {}
}

pub fn init() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    init();
    Ok(())
}

#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Builder {
        Builder
    }
    pub fn from_default_env() -> Builder {
        Builder
    }
    pub fn from_env<T>(_: T) -> Builder {
        Builder
    }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Builder {
        self
    }
    pub fn parse_filters(&mut self, _: &str) -> &mut Builder {
        self
    }
    pub fn init(&mut self) {
        init()
    }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        try_init()
    }
}
pub fn builder() -> Builder {
    Builder
}
