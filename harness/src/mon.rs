//! Monitors on the service side: a factory and services that log what is done to them, check the
//! calling contract, and behave as a workload tells them to.

use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use haproxy_spop::{Action, Message};
use tokio::sync::Semaphore;
use tokio::time::{Instant, Sleep};

use crate::core::INTENDED;

#[derive(Clone, Debug)]
pub enum Ready {
    Now,
    After(Duration),
    Err(String),
    Never,
}

#[derive(Clone, Debug)]
pub enum Act {
    Ok(Duration, Vec<Action>),
    /// Ready at once, without a timer.
    Reply(Vec<Action>),
    Err(Duration, String),
    /// Panics inside the returned future.
    Panic,
    /// Panics in `call` itself.
    PanicNow,
    Never,
    /// Answers once a permit is there.
    Gate(Arc<Semaphore>, Vec<Action>),
}

#[derive(Clone, Debug)]
pub enum Make {
    Ok(Duration),
    Err(Duration, String),
    Panic,
    /// Panics in `call` itself.
    PanicNow,
    Never,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// The factory was called with a state (its value, and how many clones it is away).
    Make { conn: usize, state: u64, generation: u64 },
    Made { conn: usize },
    MakeFailed { conn: usize },
    MakeCancelled { conn: usize },
    Call { conn: usize, call: usize, msgs: Vec<Message> },
    Done { conn: usize, call: usize, ok: bool },
    Cancelled { conn: usize, call: usize },
    Dropped { conn: usize },
    /// The calling contract was broken.
    Contract(String),
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<(Option<Instant>, Ev)>>>);

impl Log {
    pub fn push(&self, e: Ev) {
        let now = tokio::runtime::Handle::try_current().is_ok().then(Instant::now);
        self.0.lock().unwrap().push((now, e));
    }
    pub fn all(&self) -> Vec<(Option<Instant>, Ev)> {
        self.0.lock().unwrap().clone()
    }
    pub fn count(&self, f: impl Fn(&Ev) -> bool) -> usize {
        self.0.lock().unwrap().iter().filter(|e| f(&e.1)).count()
    }
    pub fn made(&self) -> usize {
        self.count(|e| matches!(e, Ev::Made { .. }))
    }
    pub fn makes(&self) -> usize {
        self.count(|e| matches!(e, Ev::Make { .. }))
    }
    pub fn dropped(&self) -> usize {
        self.count(|e| matches!(e, Ev::Dropped { .. }))
    }
    pub fn calls(&self) -> Vec<(usize, Vec<Message>)> {
        self.0
            .lock()
            .unwrap()
            .iter()
            .filter_map(|e| match &e.1 {
                Ev::Call { conn, msgs, .. } => Some((*conn, msgs.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn contract(&self) -> Option<String> {
        self.0.lock().unwrap().iter().find_map(|e| match &e.1 {
            Ev::Contract(s) => Some(s.clone()),
            _ => None,
        })
    }
    pub fn wait_calls(&self, n: usize) -> bool {
        self.count(|e| matches!(e, Ev::Call { .. })) >= n
    }
}

/// The configured state: counts how it is copied.
pub struct Token {
    pub value: u64,
    pub generation: u64,
}

impl Clone for Token {
    fn clone(&self) -> Self {
        Token { value: self.value, generation: self.generation + 1 }
    }
}

#[derive(Debug)]
pub struct SvcError(pub String);

impl fmt::Display for SvcError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for SvcError {}

type OnReady = dyn Fn(usize, usize) -> Ready + Send + Sync;
type OnCall = dyn Fn(usize, usize, &[Message]) -> Act + Send + Sync;
type OnMake = dyn Fn(usize) -> (Ready, Make) + Send + Sync;

#[derive(Clone)]
pub struct Behave {
    pub make: Arc<OnMake>,
    pub ready: Arc<OnReady>,
    pub call: Arc<OnCall>,
}

impl Default for Behave {
    fn default() -> Self {
        Behave {
            make: Arc::new(|_| (Ready::Now, Make::Ok(Duration::ZERO))),
            ready: Arc::new(|_, _| Ready::Now),
            call: Arc::new(|_, _, _| Act::Reply(vec![])),
        }
    }
}

/// The answers of a service by call number.
pub fn by_call(v: Vec<Act>) -> Arc<OnCall> {
    Arc::new(move |_, i, _| v.get(i).cloned().unwrap_or(Act::Reply(vec![])))
}

enum Gate {
    Unasked,
    Waiting(Pin<Box<Sleep>>),
    Open,
    Failed,
}

impl Gate {
    fn poll(&mut self, cx: &mut Context<'_>, plan: impl Fn() -> Ready) -> Poll<Result<(), SvcError>> {
        loop {
            match self {
                Gate::Open => return Poll::Ready(Ok(())),
                Gate::Failed => return Poll::Ready(Err(SvcError("polled again after it failed".into()))),
                Gate::Waiting(s) => {
                    if s.as_mut().poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    *self = Gate::Open;
                }
                Gate::Unasked => match plan() {
                    Ready::Now => *self = Gate::Open,
                    Ready::After(d) => {
                        *self = Gate::Waiting(Box::pin(tokio::time::sleep(d)));
                        continue;
                    }
                    Ready::Err(t) => {
                        *self = Gate::Failed;
                        return Poll::Ready(Err(SvcError(t)));
                    }
                    Ready::Never => return Poll::Pending,
                },
            }
        }
    }
}

pub struct Factory {
    pub log: Log,
    pub behave: Behave,
    made: usize,
    gate: Gate,
}

impl Factory {
    pub fn new(log: Log, behave: Behave) -> Self {
        Factory { log, behave, made: 0, gate: Gate::Unasked }
    }
}

type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

impl tower::Service<Token> for Factory {
    type Response = Svc;
    type Error = SvcError;
    type Future = BoxFut<Result<Svc, SvcError>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SvcError>> {
        let (n, b) = (self.made, self.behave.clone());
        let r = self.gate.poll(cx, || (b.make)(n).0);
        if matches!(r, Poll::Ready(Err(_))) {
            // a later connection may ask again
            self.made += 1;
            self.gate = Gate::Unasked;
        }
        r
    }

    fn call(&mut self, state: Token) -> Self::Future {
        if !matches!(self.gate, Gate::Open) {
            self.log.push(Ev::Contract("the factory was called before it reported readiness".into()));
        }
        self.gate = Gate::Unasked;
        let conn = self.made;
        self.made += 1;
        self.log.push(Ev::Make { conn, state: state.value, generation: state.generation });
        let plan = (self.behave.make)(conn).1;
        if matches!(plan, Make::PanicNow) {
            panic!("{INTENDED}: factory call");
        }
        let (log, behave) = (self.log.clone(), self.behave.clone());
        struct Guard(Log, usize, bool);
        impl Drop for Guard {
            fn drop(&mut self) {
                if !self.2 {
                    self.0.push(Ev::MakeCancelled { conn: self.1 });
                }
            }
        }
        let guard = Guard(self.log.clone(), conn, false);
        Box::pin(async move {
            let mut guard = guard;
            match plan {
                Make::Ok(d) => {
                    if !d.is_zero() {
                        tokio::time::sleep(d).await;
                    }
                    guard.2 = true;
                    log.push(Ev::Made { conn });
                    Ok(Svc {
                        conn,
                        calls: 0,
                        gate: Gate::Unasked,
                        busy: Arc::new(AtomicUsize::new(0)),
                        log,
                        behave,
                    })
                }
                Make::Err(d, t) => {
                    if !d.is_zero() {
                        tokio::time::sleep(d).await;
                    }
                    guard.2 = true;
                    log.push(Ev::MakeFailed { conn });
                    Err(SvcError(t))
                }
                Make::Panic | Make::PanicNow => panic!("{INTENDED}: factory"),
                Make::Never => std::future::pending().await,
            }
        })
    }
}

pub struct Svc {
    conn: usize,
    calls: usize,
    gate: Gate,
    busy: Arc<AtomicUsize>,
    log: Log,
    behave: Behave,
}

impl Drop for Svc {
    fn drop(&mut self) {
        self.log.push(Ev::Dropped { conn: self.conn });
    }
}

struct Running {
    log: Log,
    conn: usize,
    call: usize,
    busy: Arc<AtomicUsize>,
    done: bool,
}

impl Running {
    fn done(&mut self, ok: bool) {
        self.done = true;
        self.log.push(Ev::Done { conn: self.conn, call: self.call, ok });
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        self.busy.fetch_sub(1, SeqCst);
        if !self.done {
            self.log.push(Ev::Cancelled { conn: self.conn, call: self.call });
        }
    }
}

impl tower::Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = SvcError;
    type Future = BoxFut<Result<Vec<Action>, SvcError>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SvcError>> {
        let (conn, n, b) = (self.conn, self.calls, self.behave.clone());
        self.gate.poll(cx, || (b.ready)(conn, n))
    }

    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        let (conn, call) = (self.conn, self.calls);
        if !matches!(self.gate, Gate::Open) {
            self.log.push(Ev::Contract(format!("service {conn} was called (call {call}) before it reported readiness")));
        }
        if self.busy.fetch_add(1, SeqCst) != 0 {
            self.log.push(Ev::Contract(format!("service {conn} was called (call {call}) while its previous call was unfinished")));
        }
        self.gate = Gate::Unasked;
        self.calls += 1;
        let plan = (self.behave.call)(conn, call, &msgs);
        self.log.push(Ev::Call { conn, call, msgs });
        let mut run = Running {
            log: self.log.clone(),
            conn,
            call,
            busy: self.busy.clone(),
            done: false,
        };
        if matches!(plan, Act::PanicNow) {
            panic!("{INTENDED}: call");
        }
        Box::pin(async move {
            match plan {
                Act::Reply(a) => {
                    run.done(true);
                    Ok(a)
                }
                Act::Ok(d, a) => {
                    if !d.is_zero() {
                        tokio::time::sleep(d).await;
                    }
                    run.done(true);
                    Ok(a)
                }
                Act::Err(d, t) => {
                    if !d.is_zero() {
                        tokio::time::sleep(d).await;
                    }
                    run.done(false);
                    Err(SvcError(t))
                }
                Act::Panic | Act::PanicNow => panic!("{INTENDED}: service"),
                Act::Never => std::future::pending().await,
                Act::Gate(gate, a) => {
                    if let Ok(p) = gate.acquire().await {
                        p.forget();
                    }
                    run.done(true);
                    Ok(a)
                }
            }
        })
    }
}
