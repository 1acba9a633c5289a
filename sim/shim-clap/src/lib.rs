//! clap, with the command line taken from the simulated process.
#![allow(ambiguous_glob_reexports)]
pub use real_clap::*;
use std::ffi::OsString;

pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        let args = simrt::ctx::cur().s().args.clone();
        Self::parse_from(args)
    }
    fn try_parse() -> Result<Self, Error> {
        let args = simrt::ctx::cur().s().args.clone();
        Self::try_parse_from(args)
    }
    fn parse_from<I, T>(itr: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        match Self::try_parse_from(itr) {
            Ok(v) => v,
            Err(e) => {
                let text = e.render().to_string();
                if e.use_stderr() {
                    let _ = simrt::ctx::cur().write_stderr(simrt::ctx::Chan::Program, text.as_bytes());
                } else {
                    simrt::stdio::print(format_args!("{}", text));
                }
                std::panic::panic_any(simrt::task::SimExit(e.exit_code()))
            }
        }
    }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        let mut m = Self::command().try_get_matches_from(itr)?;
        Self::from_arg_matches_mut(&mut m)
    }
}
