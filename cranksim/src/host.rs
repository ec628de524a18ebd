//! One simulated client process: its threads run one at a time, and stop at every RPC call, sleep, wait and job
//! until the simulation lets them go on. The simulation answers in whatever order and way it likes.
use crank::seam;
use crate::rng::mix;
use serde_json::Value;
use solana_client::client_error::{ClientError, ClientErrorKind};
use solana_client::rpc_client::RpcClient;
use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::Duration;

pub type Job = Box<dyn FnOnce() + Send>;

/// How an RPC call goes wrong, as the client sees it.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Bad {
    Timeout,
    Reset,
    Busy,
    Unhealthy,
    Garbled,
}

pub enum Ask {
    Rpc(RpcRequest, Value),
    Sleep(Duration),
    NewPool(usize, usize),
    Execute(usize, Job),
    Join(usize),
    Done(End),
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String),
    Panic(String),
    Killed,
}

enum Answer {
    Go,
    Rpc(Result<Value, Bad>),
    Kill,
}

struct Killed;

/// Time as the process sees it.
#[derive(Default)]
pub struct Clocks {
    pub up_ms: AtomicU64,
    pub unix_ms: AtomicU64,
}

struct Link {
    tid: usize,
    ask: Sender<(usize, Ask)>,
    ans: Receiver<Answer>,
}

thread_local! {
    static LINK: RefCell<Option<Link>> = RefCell::new(None);
}

fn tell(a: Ask) {
    LINK.with(|l| {
        let l = l.borrow();
        let l = l.as_ref().expect("not a simulated thread");
        let _ = l.ask.send((l.tid, a));
    });
}

fn wait() -> Answer {
    let a = LINK.with(|l| l.borrow().as_ref().expect("not a simulated thread").ans.recv().unwrap_or(Answer::Kill));
    if let Answer::Kill = a {
        if !std::thread::panicking() {
            resume_unwind(Box::new(Killed));
        }
    }
    a
}

struct Host {
    clocks: Arc<Clocks>,
    seed: u64,
    tid: usize,
    drawn: AtomicU64,
    pools: Arc<AtomicU64>,
}

impl seam::Host for Host {
    fn rpc_client(&self, _url: &str) -> RpcClient {
        client()
    }
    fn uptime(&self) -> Duration {
        Duration::from_millis(self.clocks.up_ms.load(Ordering::SeqCst))
    }
    fn unix_time(&self) -> Duration {
        Duration::from_millis(self.clocks.unix_ms.load(Ordering::SeqCst))
    }
    fn sleep(&self, d: Duration) {
        tell(Ask::Sleep(d));
        wait();
    }
    fn random(&self) -> u64 {
        mix(&[self.seed, self.tid as u64, self.drawn.fetch_add(1, Ordering::SeqCst)])
    }
    fn new_pool(&self, n: usize) -> usize {
        let id = self.pools.fetch_add(1, Ordering::SeqCst) as usize;
        tell(Ask::NewPool(id, n));
        id
    }
    fn execute(&self, pool: usize, job: Job) {
        tell(Ask::Execute(pool, job));
    }
    fn join(&self, pool: usize) {
        tell(Ask::Join(pool));
        wait();
    }
}

struct Wire;

/// A client of the simulated RPC node, for use on simulated threads.
pub fn client() -> RpcClient {
    RpcClient::new_sender(Wire, Default::default())
}

#[async_trait::async_trait]
impl RpcSender for Wire {
    async fn send(&self, request: RpcRequest, params: Value) -> Result<Value, ClientError> {
        tell(Ask::Rpc(request, params));
        let bad = match wait() {
            Answer::Rpc(Ok(v)) => return Ok(v),
            Answer::Rpc(Err(b)) => b,
            _ => Bad::Reset,
        };
        let resp = |code: i64, m: &str| {
            ClientErrorKind::RpcError(RpcError::RpcResponseError {
                code,
                message: m.to_string(),
                data: RpcResponseErrorData::Empty,
            })
        };
        let kind: ClientErrorKind = match bad {
            Bad::Timeout => ClientErrorKind::Io(std::io::Error::new(std::io::ErrorKind::TimedOut, "timed out")),
            Bad::Reset => {
                ClientErrorKind::Io(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "connection reset"))
            }
            Bad::Busy => resp(429, "too many requests"),
            Bad::Unhealthy => resp(-32005, "node is behind"),
            Bad::Garbled => ClientErrorKind::SerdeJson(serde_json::from_str::<Value>("{").unwrap_err()),
        };
        Err(kind.into())
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
}

pub enum St {
    /// A job that has not started.
    Fresh(usize),
    Rpc(RpcRequest, Value),
    /// Until then.
    Sleep(u64),
    Join(usize),
    Dead(End),
    Gone,
}

pub struct Th {
    tx: Sender<Answer>,
    handle: Option<JoinHandle<()>>,
    pub st: St,
    pub pool: Option<usize>,
    pub started: bool,
}

pub struct Proc {
    pub clocks: Arc<Clocks>,
    seed: u64,
    rx: Receiver<(usize, Ask)>,
    tx: Sender<(usize, Ask)>,
    pub th: Vec<Th>,
    pools: Vec<(usize, usize)>,
    pool_ids: Arc<AtomicU64>,
    /// Jobs handed out since the process started.
    pub jobs: u64,
    pub hung: bool,
}

fn text(p: Box<dyn Any + Send>) -> End {
    if p.downcast_ref::<Killed>().is_some() {
        return End::Killed;
    }
    End::Panic(match (p.downcast_ref::<&str>(), p.downcast_ref::<String>()) {
        (Some(s), _) => s.to_string(),
        (_, Some(s)) => s.clone(),
        _ => "panic".into(),
    })
}

impl Proc {
    /// Starts the process; it runs up to its first stop.
    pub fn start<F: FnOnce() -> Result<(), String> + Send + 'static>(clocks: Arc<Clocks>, seed: u64, main: F) -> Proc {
        let (tx, rx) = channel();
        let mut p = Proc {
            clocks,
            seed,
            rx,
            tx,
            th: vec![],
            pools: vec![],
            pool_ids: Arc::new(AtomicU64::new(0)),
            jobs: 0,
            hung: false,
        };
        p.spawn(None, Box::new(move || main()));
        p.resume(0, Answer::Go);
        p
    }

    fn spawn(&mut self, pool: Option<usize>, f: Box<dyn FnOnce() -> Result<(), String> + Send>) {
        let (atx, arx) = channel();
        let tid = self.th.len();
        let ask = self.tx.clone();
        let host = Host {
            clocks: self.clocks.clone(),
            seed: self.seed,
            tid,
            drawn: AtomicU64::new(0),
            pools: self.pool_ids.clone(),
        };
        let seed = mix(&[self.seed, tid as u64, 77]);
        let handle = std::thread::Builder::new()
            .name("simulated".into())
            .stack_size(4 << 20)
            .spawn(move || {
                LINK.with(|l| *l.borrow_mut() = Some(Link { tid, ask, ans: arx }));
                serum_common::client::seam::seed(seed);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    wait();
                    seam::enter(Arc::new(host));
                    f()
                }));
                tell(Ask::Done(match r {
                    Ok(Ok(())) => End::Ok,
                    Ok(Err(e)) => End::Err(e),
                    Err(p) => text(p),
                }));
            })
            .expect("thread");
        self.th.push(Th {
            tx: atx,
            handle: Some(handle),
            st: St::Fresh(pool.unwrap_or(0)),
            pool,
            started: false,
        });
    }

    /// Lets one thread run up to its next stop.
    fn resume(&mut self, t: usize, a: Answer) {
        self.th[t].started = true;
        self.th[t].st = St::Gone;
        if self.th[t].tx.send(a).is_err() {
            return;
        }
        loop {
            // (Real time: only a thread that never comes back runs into this.)
            let (tid, ask) = match self.rx.recv_timeout(Duration::from_secs(20)) {
                Ok(x) => x,
                Err(_) => {
                    self.hung = true;
                    return;
                }
            };
            debug_assert!(tid == t);
            let st = match ask {
                Ask::NewPool(id, n) => {
                    self.pools.push((id, n));
                    continue;
                }
                Ask::Execute(pool, job) => {
                    self.jobs += 1;
                    self.spawn(Some(pool), Box::new(move || Ok(job())));
                    continue;
                }
                Ask::Rpc(r, v) => St::Rpc(r, v),
                Ask::Sleep(d) => St::Sleep(self.clocks.up_ms.load(Ordering::SeqCst) + d.as_millis() as u64),
                Ask::Join(p) => St::Join(p),
                Ask::Done(e) => {
                    if let Some(h) = self.th[tid].handle.take() {
                        let _ = h.join();
                    }
                    St::Dead(e)
                }
            };
            self.th[tid].st = st;
            if tid == t {
                return;
            }
        }
    }

    pub fn can_go(&self, t: usize) -> bool {
        match &self.th[t].st {
            St::Fresh(_) => match self.th[t].pool {
                None => true,
                Some(p) => {
                    let lim = self.pools.iter().find(|x| x.0 == p).map(|x| x.1).unwrap_or(1);
                    let busy = self.th.iter().filter(|x| x.pool == Some(p) && x.started && !x.dead()).count();
                    busy < lim
                }
            },
            St::Rpc(..) | St::Sleep(_) => true,
            St::Join(p) => !self.th.iter().any(|x| x.pool == Some(*p) && !x.dead()),
            St::Dead(_) | St::Gone => false,
        }
    }

    pub fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|t| self.can_go(*t)).collect()
    }

    pub fn go(&mut self, t: usize) {
        self.resume(t, Answer::Go)
    }
    pub fn answer(&mut self, t: usize, v: Result<Value, Bad>) {
        self.resume(t, Answer::Rpc(v))
    }
    pub fn ended(&self) -> Option<&End> {
        match &self.th[0].st {
            St::Dead(e) => Some(e),
            _ => None,
        }
    }
    /// Threads that have finished are forgotten, except the first.
    pub fn live_jobs(&self) -> usize {
        self.th.iter().skip(1).filter(|x| !x.dead()).count()
    }
}

impl Th {
    pub fn dead(&self) -> bool {
        matches!(self.st, St::Dead(_))
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        for t in &self.th {
            let _ = t.tx.send(Answer::Kill);
        }
        if !self.hung {
            for t in self.th.iter_mut() {
                if let Some(h) = t.handle.take() {
                    let _ = h.join();
                }
            }
        }
    }
}
