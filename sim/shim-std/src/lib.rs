//! Stands where `std` stands in the programs under simulation: everything is re-exported from the real std, except
//! the points where the outside world enters.
#![allow(ambiguous_glob_reexports)]
pub use ::std::*;
pub use simrt;

pub mod process {
    pub use ::std::process::*;
    use simrt::proc::{CmdSpec, StdioKind};
    use ::std::ffi::OsStr;
    use ::std::io;

    pub fn exit(code: i32) -> ! {
        ::std::panic::panic_any(simrt::task::SimExit(code))
    }
    pub fn abort() -> ! {
        ::std::panic::panic_any(simrt::task::SimExit(134))
    }

    pub struct Stdio(pub StdioKind);
    impl Stdio {
        pub fn piped() -> Stdio {
            Stdio(StdioKind::Piped)
        }
        pub fn null() -> Stdio {
            Stdio(StdioKind::Null)
        }
        pub fn inherit() -> Stdio {
            Stdio(StdioKind::Inherit)
        }
    }

    pub struct Command(pub CmdSpec);
    fn st(s: impl AsRef<OsStr>) -> String {
        s.as_ref().to_string_lossy().into_owned()
    }
    impl Command {
        pub fn new<S: AsRef<OsStr>>(p: S) -> Command {
            Command(CmdSpec::new(st(p)))
        }
        pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command {
            self.0.args.push(st(a));
            self
        }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Command {
            for x in a {
                self.arg(x);
            }
            self
        }
        pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
            self.0.env_ops.push((st(k), Some(st(v))));
            self
        }
        pub fn envs<I: IntoIterator<Item = (K, V)>, K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, it: I) -> &mut Command {
            for (k, v) in it {
                self.env(k, v);
            }
            self
        }
        pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command {
            self.0.env_ops.push((st(k), None));
            self
        }
        pub fn env_clear(&mut self) -> &mut Command {
            self.0.env_clear = true;
            self.0.env_ops.clear();
            self
        }
        pub fn current_dir<P: AsRef<::std::path::Path>>(&mut self, _p: P) -> &mut Command {
            self
        }
        pub fn stdin<T: Into<Stdio>>(&mut self, t: T) -> &mut Command {
            self.0.stdin = Some(t.into().0);
            self
        }
        pub fn stdout<T: Into<Stdio>>(&mut self, t: T) -> &mut Command {
            self.0.stdout = Some(t.into().0);
            self
        }
        pub fn stderr<T: Into<Stdio>>(&mut self, t: T) -> &mut Command {
            self.0.stderr = Some(t.into().0);
            self
        }
        pub fn status(&mut self) -> io::Result<ExitStatus> {
            self.0.run_probe()
        }
        pub fn output(&mut self) -> io::Result<Output> {
            self.0.run_probe().map(|status| Output {
                status,
                stdout: if status.success() { b"rust-analyzer 1.0.0\n".to_vec() } else { vec![] },
                stderr: vec![],
            })
        }
        pub fn spawn(&mut self) -> io::Result<Child> {
            // only short-lived probes are started synchronously
            let s = self.0.run_probe()?;
            Ok(Child { status: s, stdin: None, stdout: None, stderr: None })
        }
        pub fn get_program(&self) -> &OsStr {
            OsStr::new(&self.0.program)
        }
        pub fn get_args(&self) -> impl Iterator<Item = &OsStr> + '_ {
            self.0.args.iter().map(OsStr::new)
        }
        pub fn get_envs(&self) -> impl Iterator<Item = (&OsStr, Option<&OsStr>)> + '_ {
            self.0.env_ops.iter().map(|(k, v)| (OsStr::new(k), v.as_ref().map(OsStr::new)))
        }
    }
    impl ::std::fmt::Debug for Command {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            write!(f, "{:?}", self.0.program)?;
            for a in &self.0.args {
                write!(f, " {:?}", a)?;
            }
            Ok(())
        }
    }
    pub struct Child {
        status: ExitStatus,
        pub stdin: Option<ChildStdin>,
        pub stdout: Option<ChildStdout>,
        pub stderr: Option<ChildStderr>,
    }
    impl Child {
        pub fn wait(&mut self) -> io::Result<ExitStatus> {
            Ok(self.status)
        }
        pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
            Ok(Some(self.status))
        }
        pub fn wait_with_output(self) -> io::Result<Output> {
            Ok(Output { status: self.status, stdout: vec![], stderr: vec![] })
        }
        pub fn kill(&mut self) -> io::Result<()> {
            Ok(())
        }
        pub fn id(&self) -> u32 {
            4242
        }
    }
}

pub mod env {
    pub use ::std::env::*;
    use ::std::ffi::{OsStr, OsString};
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
        simrt::ctx::cur().env_get(&k.as_ref().to_string_lossy()).ok_or(VarError::NotPresent)
    }
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
        simrt::ctx::cur().env_get(&k.as_ref().to_string_lossy()).map(Into::into)
    }
    pub fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(k: K, v: V) {
        simrt::ctx::cur()
            .s()
            .env
            .insert(k.as_ref().to_string_lossy().into_owned(), v.as_ref().to_string_lossy().into_owned());
    }
    pub fn remove_var<K: AsRef<OsStr>>(k: K) {
        simrt::ctx::cur().s().env.remove(&*k.as_ref().to_string_lossy());
    }
    pub fn vars() -> ::std::vec::IntoIter<(String, String)> {
        simrt::ctx::cur().s().env.clone().into_iter().collect::<Vec<_>>().into_iter()
    }
    pub fn args() -> ::std::vec::IntoIter<String> {
        simrt::ctx::cur().s().args.clone().into_iter()
    }
    pub fn args_os() -> ::std::vec::IntoIter<OsString> {
        simrt::ctx::cur().s().args.clone().into_iter().map(Into::into).collect::<Vec<OsString>>().into_iter()
    }
    pub fn home_dir() -> Option<::std::path::PathBuf> {
        var_os("HOME").map(Into::into)
    }
}

pub mod time {
    pub use ::std::time::*;
    use ::std::ops::{Add, AddAssign, Sub, SubAssign};

    /// Virtual monotonic clock.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::from_micros(1_000_000_000 + simrt::ctx::cur().now_us()))
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().0.saturating_sub(self.0)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn sleep(d: ::std::time::Duration) {
        simrt::ctx::cur().s().sync_extra_us += d.as_micros() as u64;
    }
}

pub mod fs {
    pub use ::std::fs::*;
    use ::std::io::{self, Read};
    use ::std::path::Path;

    pub struct File {
        name: String,
        pos: usize,
        rng: simrt::rng::Rng,
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            let name = p.as_ref().to_string_lossy().into_owned();
            let ctx = simrt::ctx::cur();
            let s = ctx.s();
            match s.files.get(&name) {
                None => Err(io::Error::from_raw_os_error(2)),
                Some(f) if f.open_errno != 0 => {
                    let e = f.open_errno;
                    drop(s);
                    ctx.count("fault.file_open_error");
                    Err(io::Error::from_raw_os_error(e))
                }
                Some(_) => Ok(File { name, pos: 0, rng: simrt::rng::Rng::stream(ctx.seed, "file") }),
            }
        }
    }
    impl Read for File {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let ctx = simrt::ctx::cur();
            let s = ctx.s();
            let Some(f) = s.files.get(&self.name) else {
                return Err(io::Error::from_raw_os_error(5));
            };
            let (p_eintr, chunk, read_err_at, len) = (f.p_eintr, f.chunk, f.read_err_at, f.content.len());
            drop(s);
            if self.rng.pm(p_eintr) {
                ctx.count("fault.file_eintr");
                return Err(io::Error::from_raw_os_error(4));
            }
            let mut end = len;
            if let Some((at, e)) = read_err_at {
                if self.pos as u64 >= at {
                    ctx.count("fault.file_error");
                    return Err(io::Error::from_raw_os_error(e));
                }
                end = end.min(at as usize);
            }
            let mut n = b.len().min(end - self.pos.min(end));
            if chunk > 0 && n as u64 > chunk {
                n = 1 + self.rng.usize(chunk as usize);
                ctx.count("fault.file_short_read");
            }
            b[..n].copy_from_slice(&ctx.s().files[&self.name].content[self.pos..self.pos + n]);
            self.pos += n;
            ctx.ev("file", "read", n as u64);
            Ok(n)
        }
    }
    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        let mut f = File::open(p)?;
        let mut v = vec![];
        f.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        let mut f = File::open(p)?;
        let mut s = String::new();
        f.read_to_string(&mut s)?;
        Ok(s)
    }
}

pub mod io {
    pub use ::std::io::*;
    use ::std::cell::RefCell;
    use ::std::fmt;
    use ::std::io as rio;

    struct RawIn;
    impl rio::Read for RawIn {
        fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
            simrt::stdio::stdin_read_sync(b)
        }
    }
    ::std::thread_local! {
        static STDIN: RefCell<rio::BufReader<RawIn>> = RefCell::new(rio::BufReader::new(RawIn));
    }
    /// Standard input, buffered like std's.
    #[derive(Debug)]
    pub struct Stdin(());
    #[derive(Debug)]
    pub struct StdinLock<'a>(::std::marker::PhantomData<&'a ()>, Vec<u8>, usize);
    pub fn stdin() -> Stdin {
        Stdin(())
    }
    impl Stdin {
        pub fn lock(&self) -> StdinLock<'static> {
            StdinLock(::std::marker::PhantomData, vec![], 0)
        }
        pub fn read_line(&self, s: &mut String) -> rio::Result<usize> {
            rio::BufRead::read_line(&mut self.lock(), s)
        }
        pub fn lines(self) -> rio::Lines<StdinLock<'static>> {
            rio::BufRead::lines(self.lock())
        }
    }
    impl rio::Read for Stdin {
        fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
            STDIN.with(|s| s.borrow_mut().read(b))
        }
    }
    impl rio::Read for StdinLock<'_> {
        fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
            STDIN.with(|s| s.borrow_mut().read(b))
        }
    }
    impl rio::BufRead for StdinLock<'_> {
        fn fill_buf(&mut self) -> rio::Result<&[u8]> {
            // the shared buffer cannot be lent out of the thread-local; lend a copy of it
            self.1 = STDIN.with(|s| s.borrow_mut().fill_buf().map(|b| b.to_vec()))?;
            self.2 = 0;
            Ok(&self.1)
        }
        fn consume(&mut self, n: usize) {
            STDIN.with(|s| s.borrow_mut().consume(n));
        }
    }

    #[derive(Debug)]
    pub struct Stdout(());
    #[derive(Debug)]
    pub struct StdoutLock<'a>(::std::marker::PhantomData<&'a ()>);
    pub fn stdout() -> Stdout {
        Stdout(())
    }
    impl Stdout {
        pub fn lock(&self) -> StdoutLock<'static> {
            StdoutLock(::std::marker::PhantomData)
        }
    }
    macro_rules! out {
        ($t:ty) => {
            impl rio::Write for $t {
                fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
                    simrt::stdio::stdout_with(|w| w.write(b))
                }
                fn flush(&mut self) -> rio::Result<()> {
                    simrt::stdio::stdout_with(|w| w.flush())
                }
            }
        };
    }
    out!(Stdout);
    out!(&Stdout);
    out!(StdoutLock<'_>);

    #[derive(Debug)]
    pub struct Stderr(());
    #[derive(Debug)]
    pub struct StderrLock<'a>(::std::marker::PhantomData<&'a ()>);
    pub fn stderr() -> Stderr {
        Stderr(())
    }
    impl Stderr {
        pub fn lock(&self) -> StderrLock<'static> {
            StderrLock(::std::marker::PhantomData)
        }
    }
    macro_rules! err {
        ($t:ty) => {
            impl rio::Write for $t {
                fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
                    simrt::ctx::cur().write_stderr(simrt::ctx::Chan::Program, b).map(|_| b.len())
                }
                fn flush(&mut self) -> rio::Result<()> {
                    Ok(())
                }
            }
        };
    }
    err!(Stderr);
    err!(StderrLock<'_>);

    pub trait IsTerminal {
        fn is_terminal(&self) -> bool;
    }
    impl IsTerminal for Stdin {
        fn is_terminal(&self) -> bool {
            false
        }
    }
    impl IsTerminal for Stdout {
        fn is_terminal(&self) -> bool {
            false
        }
    }
    impl IsTerminal for Stderr {
        fn is_terminal(&self) -> bool {
            false
        }
    }
    pub fn _sim_print(a: fmt::Arguments<'_>) {
        simrt::stdio::print(a)
    }
    pub fn read_to_string<R: rio::Read>(mut r: R) -> rio::Result<String> {
        let mut s = String::new();
        r.read_to_string(&mut s)?;
        Ok(s)
    }
}

#[macro_export]
macro_rules! print {
    ($($a:tt)*) => { $crate::simrt::stdio::print(::core::format_args!($($a)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::simrt::stdio::print(::core::format_args!("\n")) };
    ($($a:tt)*) => { $crate::simrt::stdio::print(::core::format_args!("{}\n", ::core::format_args!($($a)*))) };
}
#[macro_export]
macro_rules! eprint {
    ($($a:tt)*) => { $crate::simrt::stdio::eprint(::core::format_args!($($a)*)) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::simrt::stdio::eprint(::core::format_args!("\n")) };
    ($($a:tt)*) => { $crate::simrt::stdio::eprint(::core::format_args!("{}\n", ::core::format_args!($($a)*))) };
}

/// What `main` returned, as the exit status the real runtime would give it.
pub mod __sim {
    /// What std's prelude has beyond core's.
    pub mod prelude {
        pub use ::std::borrow::ToOwned;
        pub use ::std::boxed::Box;
        pub use ::std::string::{String, ToString};
        pub use ::std::vec::Vec;
    }
    pub trait SimTermination {
        fn sim_report(self) -> i32;
    }
    impl SimTermination for () {
        fn sim_report(self) -> i32 {
            0
        }
    }
    impl SimTermination for ::std::process::ExitCode {
        fn sim_report(self) -> i32 {
            if self == ::std::process::ExitCode::SUCCESS {
                0
            } else {
                1
            }
        }
    }
    impl<T: SimTermination, E: ::std::fmt::Debug> SimTermination for Result<T, E> {
        fn sim_report(self) -> i32 {
            match self {
                Ok(v) => v.sim_report(),
                Err(e) => {
                    // the runtime ignores a failure to print this
                    let _ = simrt::ctx::cur()
                        .write_stderr(simrt::ctx::Chan::Program, ::std::format!("Error: {:?}\n", e).as_bytes());
                    1
                }
            }
        }
    }
}
