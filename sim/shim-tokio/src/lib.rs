//! Stands where `tokio` stands: the real tokio, except standard streams, child processes, the runtime, task
//! spawning and files.
#![allow(ambiguous_glob_reexports)]
pub use real_tokio::*;
pub use shim_macros::main;
pub use task::spawn;

pub mod __sim {
    pub use simrt::run::block_on;
}

pub mod task {
    pub use real_tokio::task::*;
    use std::future::Future;
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        simrt::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        simrt::task::spawn(async move { f() })
    }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }
    pub struct JoinSet<T>(real_tokio::task::JoinSet<T>);
    impl<T: Send + 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(real_tokio::task::JoinSet::new())
        }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: Future<Output = T> + Send + 'static,
        {
            let h = self.0.spawn(simrt::task::SimTask::new(f));
            simrt::task::register(h.clone());
            h
        }
    }
    impl<T: Send + 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> std::ops::Deref for JoinSet<T> {
        type Target = real_tokio::task::JoinSet<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> std::ops::DerefMut for JoinSet<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
}

pub mod io {
    pub use real_tokio::io::*;
    pub type Stdin = simrt::stdio::AsyncStdin;
    pub type Stdout = simrt::stdio::AsyncStdout;
    pub type Stderr = simrt::stdio::AsyncStderr;
    pub fn stdin() -> Stdin {
        simrt::stdio::AsyncStdin::new()
    }
    pub fn stdout() -> Stdout {
        simrt::stdio::AsyncStdout::new()
    }
    pub fn stderr() -> Stderr {
        simrt::stdio::AsyncStderr
    }
}

pub mod fs {
    pub use real_tokio::fs::*;
    pub async fn read_to_string<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<String> {
        sim_std::fs::read_to_string(p)
    }
    pub async fn read<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<Vec<u8>> {
        sim_std::fs::read(p)
    }
}

pub mod signal {
    pub use real_tokio::signal::*;
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
}

pub mod runtime {
    pub use real_tokio::runtime::*;
    pub struct Runtime(());
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
        pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
            simrt::run::block_on(f)
        }
        pub fn spawn<F>(&self, f: F) -> real_tokio::task::JoinHandle<F::Output>
        where
            F: std::future::Future + Send + 'static,
            F::Output: Send + 'static,
        {
            simrt::task::spawn(f)
        }
        pub fn shutdown_background(self) {}
        pub fn shutdown_timeout(self, _d: std::time::Duration) {}
    }
    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Builder {
            self
        }
        pub fn enable_io(&mut self) -> &mut Builder {
            self
        }
        pub fn enable_time(&mut self) -> &mut Builder {
            self
        }
        pub fn worker_threads(&mut self, _n: usize) -> &mut Builder {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
    }
}

pub mod process {
    use sim_std::process::Stdio;
    use simrt::ctx::{cur, ChildState};
    use simrt::proc::{CmdSpec, StdioKind};
    use std::ffi::OsStr;
    use std::io;
    use std::pin::Pin;
    use std::process::{ExitStatus, Output};
    use std::sync::Arc;
    use std::task::{Context, Poll};

    pub struct ChildStdin(simrt::stdio::ChildIn);
    pub struct ChildStdout(simrt::stdio::ChildOut);
    pub struct ChildStderr(simrt::stdio::ChildOut);
    macro_rules! dbg {
        ($($t:ident),*) => { $(impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($t)) }
        })* };
    }
    dbg!(ChildStdin, ChildStdout, ChildStderr, Child);
    impl real_tokio::io::AsyncWrite for ChildStdin {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(cx, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_shutdown(cx)
        }
    }
    macro_rules! rd {
        ($t:ident) => {
            impl real_tokio::io::AsyncRead for $t {
                fn poll_read(
                    mut self: Pin<&mut Self>,
                    cx: &mut Context<'_>,
                    b: &mut real_tokio::io::ReadBuf<'_>,
                ) -> Poll<io::Result<()>> {
                    Pin::new(&mut self.0).poll_read(cx, b)
                }
            }
        };
    }
    rd!(ChildStdout);
    rd!(ChildStderr);

    pub struct Command {
        spec: CmdSpec,
        kill_on_drop: bool,
    }
    fn st(s: impl AsRef<OsStr>) -> String {
        s.as_ref().to_string_lossy().into_owned()
    }
    impl Command {
        pub fn new<S: AsRef<OsStr>>(p: S) -> Command {
            Command { spec: CmdSpec::new(st(p)), kill_on_drop: false }
        }
        pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command {
            self.spec.args.push(st(a));
            self
        }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Command {
            for x in a {
                self.arg(x);
            }
            self
        }
        pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
            self.spec.env_ops.push((st(k), Some(st(v))));
            self
        }
        pub fn envs<I: IntoIterator<Item = (K, V)>, K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, it: I) -> &mut Command {
            for (k, v) in it {
                self.env(k, v);
            }
            self
        }
        pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command {
            self.spec.env_ops.push((st(k), None));
            self
        }
        pub fn env_clear(&mut self) -> &mut Command {
            self.spec.env_clear = true;
            self.spec.env_ops.clear();
            self
        }
        pub fn current_dir<P: AsRef<std::path::Path>>(&mut self, _p: P) -> &mut Command {
            self
        }
        pub fn process_group(&mut self, _g: i32) -> &mut Command {
            self
        }
        pub fn stdin<T: Into<Stdio>>(&mut self, t: T) -> &mut Command {
            self.spec.stdin = Some(t.into().0);
            self
        }
        pub fn stdout<T: Into<Stdio>>(&mut self, t: T) -> &mut Command {
            self.spec.stdout = Some(t.into().0);
            self
        }
        pub fn stderr<T: Into<Stdio>>(&mut self, t: T) -> &mut Command {
            self.spec.stderr = Some(t.into().0);
            self
        }
        pub fn uid(&mut self, _u: u32) -> &mut Command {
            self
        }
        pub fn gid(&mut self, _g: u32) -> &mut Command {
            self
        }
        pub fn get_args(&self) -> impl Iterator<Item = &OsStr> + '_ {
            self.spec.args.iter().map(OsStr::new)
        }
        pub fn kill_on_drop(&mut self, k: bool) -> &mut Command {
            self.kill_on_drop = k;
            self
        }
        pub fn spawn(&mut self) -> io::Result<Child> {
            let s = self.spec.spawn()?;
            Ok(Child {
                state: s.state,
                done: false,
                kill_on_drop: self.kill_on_drop,
                stdin: s.stdin.map(ChildStdin),
                stdout: s.stdout.map(ChildStdout),
                stderr: s.stderr.map(ChildStderr),
            })
        }
        pub async fn status(&mut self) -> io::Result<ExitStatus> {
            self.spec.run_probe()
        }
        pub async fn output(&mut self) -> io::Result<Output> {
            self.spec.run_probe().map(|status| Output {
                status,
                stdout: if status.success() { b"rust-analyzer 1.0.0\n".to_vec() } else { vec![] },
                stderr: vec![],
            })
        }
    }
    impl From<sim_std::process::Command> for Command {
        fn from(c: sim_std::process::Command) -> Command {
            Command { spec: c.0, kill_on_drop: false }
        }
    }
    impl std::fmt::Debug for Command {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.spec.program)?;
            for a in &self.spec.args {
                write!(f, " {:?}", a)?;
            }
            Ok(())
        }
    }
    #[allow(unused)]
    fn kind(s: Stdio) -> StdioKind {
        s.0
    }

    pub struct Child {
        state: Arc<ChildState>,
        done: bool,
        kill_on_drop: bool,
        pub stdin: Option<ChildStdin>,
        pub stdout: Option<ChildStdout>,
        pub stderr: Option<ChildStderr>,
    }
    impl Child {
        pub fn id(&self) -> Option<u32> {
            if self.done {
                None
            } else {
                Some(4243)
            }
        }
        pub fn start_kill(&mut self) -> io::Result<()> {
            if self.done {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidInput,
                    "invalid argument: can't kill an exited process",
                ));
            }
            self.state.send_kill();
            Ok(())
        }
        pub async fn kill(&mut self) -> io::Result<()> {
            self.start_kill()?;
            self.wait().await?;
            Ok(())
        }
        pub async fn wait(&mut self) -> io::Result<ExitStatus> {
            drop(self.stdin.take());
            let s = self.state.wait().await;
            simrt::proc::reap_delay().await;
            self.done = true;
            Ok(s)
        }
        pub async fn wait_with_output(mut self) -> io::Result<Output> {
            use real_tokio::io::AsyncReadExt;
            let (mut o, mut e) = (self.stdout.take(), self.stderr.take());
            let (mut ov, mut ev) = (vec![], vec![]);
            let ro = async {
                if let Some(o) = &mut o {
                    o.read_to_end(&mut ov).await?;
                }
                io::Result::Ok(())
            };
            let re = async {
                if let Some(e) = &mut e {
                    e.read_to_end(&mut ev).await?;
                }
                io::Result::Ok(())
            };
            let (s, a, b) = real_tokio::join!(self.wait(), ro, re);
            a?;
            b?;
            Ok(Output { status: s?, stdout: ov, stderr: ev })
        }
        pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
            let s = self.state.try_status();
            if s.is_some() {
                self.done = true;
            }
            Ok(s)
        }
    }
    impl Drop for Child {
        fn drop(&mut self) {
            if self.kill_on_drop && !self.done {
                // destructors do not run when a process exits
                if let Some(c) = simrt::ctx::try_cur() {
                    if !c.s().exiting {
                        let _ = cur();
                        self.state.send_kill();
                    }
                }
            }
        }
    }
}
