//! env_logger's entry points; lines go to the simulated process's error stream, tagged as logging.
use log::{Level, LevelFilter, Log, Metadata, Record};
use simrt::ctx::{cur, try_cur, Chan};

struct SimLogger;
impl Log for SimLogger {
    fn enabled(&self, _m: &Metadata) -> bool {
        try_cur().map(|c| c.s().log_level_on).unwrap_or(false)
    }
    fn log(&self, r: &Record) {
        if let Some(c) = try_cur() {
            if !c.s().log_level_on {
                return;
            }
            // formatting runs the arguments' Display code, as the real logger does
            let line = format!("[{} {} {}] {}\n", "2026-01-01T00:00:00Z", r.level(), r.target(), r.args());
            if r.level() <= Level::Error {
                c.count("reach.logged_error");
            }
            if c.s().log_to_stdout {
                let _ = simrt::stdio::stdout_with(|w| w.write_all(line.as_bytes()));
            } else {
                let _ = c.write_stderr(Chan::Log, line.as_bytes());
            }
        }
    }
    fn flush(&self) {}
}
static LOGGER: SimLogger = SimLogger;

fn level_of(spec: &str) -> Option<LevelFilter> {
    spec.split(',').filter_map(|d| d.rsplit('=').next().unwrap_or("").trim().parse::<LevelFilter>().ok()).max()
}

fn start(l: LevelFilter) {
    let _ = log::set_logger(&LOGGER);
    let c = cur();
    log::set_max_level(l);
    c.s().log_level_on = true;
}

pub use real_env_logger::{fmt, Target, TimestampPrecision, WriteStyle};

/// Which variable configures the filter, and what applies without it.
#[derive(Clone, Debug)]
pub struct Env {
    var: String,
    default: Option<String>,
}
impl Default for Env {
    fn default() -> Self {
        Env { var: "RUST_LOG".into(), default: None }
    }
}
impl Env {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn filter<S: Into<String>>(mut self, v: S) -> Self {
        self.var = v.into();
        self
    }
    pub fn filter_or<S: Into<String>, D: Into<String>>(mut self, v: S, d: D) -> Self {
        self.var = v.into();
        self.default = Some(d.into());
        self
    }
    pub fn default_filter_or<D: Into<String>>(mut self, d: D) -> Self {
        self.default = Some(d.into());
        self
    }
    pub fn write_style<S: Into<String>>(self, _s: S) -> Self {
        self
    }
    pub fn write_style_or<S: Into<String>, D: Into<String>>(self, _s: S, _d: D) -> Self {
        self
    }
    pub fn default_write_style_or<D: Into<String>>(self, _d: D) -> Self {
        self
    }
    fn level(&self) -> Option<LevelFilter> {
        cur().env_get(&self.var).as_deref().or(self.default.as_deref()).and_then(level_of)
    }
}
impl From<&str> for Env {
    fn from(v: &str) -> Env {
        Env::default().filter(v)
    }
}
impl From<String> for Env {
    fn from(v: String) -> Env {
        Env::default().filter(v)
    }
}

pub fn init() {
    Builder::from_default_env().init()
}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    init();
    Ok(())
}
pub fn init_from_env<E: Into<Env>>(e: E) {
    Builder::from_env(e).init()
}
pub fn try_init_from_env<E: Into<Env>>(e: E) -> Result<(), log::SetLoggerError> {
    init_from_env(e);
    Ok(())
}
pub fn builder() -> Builder {
    Builder::from_default_env()
}

#[derive(Default)]
pub struct Builder(Option<LevelFilter>);
impl Builder {
    pub fn new() -> Self {
        Builder(None)
    }
    pub fn from_default_env() -> Self {
        Self::from_env(Env::default())
    }
    pub fn from_env<E: Into<Env>>(e: E) -> Self {
        Builder(e.into().level())
    }
    pub fn parse_env<E: Into<Env>>(&mut self, e: E) -> &mut Self {
        if let Some(l) = e.into().level() {
            self.0 = Some(l);
        }
        self
    }
    pub fn parse_default_env(&mut self) -> &mut Self {
        self.parse_env(Env::default())
    }
    pub fn parse_filters(&mut self, f: &str) -> &mut Self {
        if let Some(l) = level_of(f) {
            self.0 = Some(l);
        }
        self
    }
    pub fn filter_level(&mut self, l: LevelFilter) -> &mut Self {
        self.0 = Some(l);
        self
    }
    pub fn filter(&mut self, _m: Option<&str>, l: LevelFilter) -> &mut Self {
        self.0 = Some(self.0.map_or(l, |o| o.max(l)));
        self
    }
    pub fn filter_module(&mut self, m: &str, l: LevelFilter) -> &mut Self {
        self.filter(Some(m), l)
    }
    pub fn target(&mut self, t: Target) -> &mut Self {
        if let Target::Stdout = t {
            cur().s().log_to_stdout = true;
        }
        self
    }
    pub fn format<F>(&mut self, _f: F) -> &mut Self
    where
        F: Fn(&mut fmt::Formatter, &Record<'_>) -> std::io::Result<()> + Sync + Send + 'static,
    {
        self
    }
    pub fn default_format(&mut self) -> &mut Self {
        self
    }
    pub fn format_timestamp(&mut self, _t: Option<TimestampPrecision>) -> &mut Self {
        self
    }
    pub fn format_timestamp_secs(&mut self) -> &mut Self {
        self
    }
    pub fn format_timestamp_millis(&mut self) -> &mut Self {
        self
    }
    pub fn format_timestamp_micros(&mut self) -> &mut Self {
        self
    }
    pub fn format_timestamp_nanos(&mut self) -> &mut Self {
        self
    }
    pub fn format_module_path(&mut self, _w: bool) -> &mut Self {
        self
    }
    pub fn format_target(&mut self, _w: bool) -> &mut Self {
        self
    }
    pub fn format_level(&mut self, _w: bool) -> &mut Self {
        self
    }
    pub fn format_indent(&mut self, _w: Option<usize>) -> &mut Self {
        self
    }
    pub fn format_suffix(&mut self, _s: &'static str) -> &mut Self {
        self
    }
    pub fn write_style(&mut self, _w: WriteStyle) -> &mut Self {
        self
    }
    pub fn is_test(&mut self, _t: bool) -> &mut Self {
        self
    }
    pub fn init(&mut self) {
        start(self.0.unwrap_or(LevelFilter::Error))
    }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        self.init();
        Ok(())
    }
}
