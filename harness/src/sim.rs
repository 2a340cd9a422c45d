//! Runs the real `pica::Pica` in-process on a paused (virtual) clock.
//! The harness owns the clock, the event loop gate and all connections.

use pica::{Handle, Pica, PicaCommand, PicaEvent, RangingEstimator, RangingMeasurement};
use futures::future::BoxFuture;
use std::collections::VecDeque;
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::sync::{broadcast, mpsc, oneshot};
use tokio::time::{Duration, Instant};

/// Input half of a simulated connection.
#[derive(Default)]
struct InState {
    queue: VecDeque<Vec<u8>>,
    closed: bool,
    dropped: bool,
    waker: Option<Waker>,
}

/// Output half of a simulated connection.
#[derive(Default)]
struct OutState {
    packets: Vec<(u64, Vec<u8>)>,
    fail: bool,
    stall: bool,
    dropped: bool,
    waker: Option<Waker>,
}

struct SimStream(Arc<Mutex<InState>>);
impl futures::stream::Stream for SimStream {
    type Item = Vec<u8>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Vec<u8>>> {
        let mut st = self.0.lock().unwrap();
        if let Some(p) = st.queue.pop_front() {
            return Poll::Ready(Some(p));
        }
        if st.closed {
            return Poll::Ready(None);
        }
        st.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for SimStream {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}

struct SimSink(Arc<Mutex<OutState>>, Instant);
impl futures::sink::Sink<Vec<u8>> for SimSink {
    type Error = anyhow::Error;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), anyhow::Error>> {
        let mut st = self.0.lock().unwrap();
        if st.fail {
            return Poll::Ready(Err(anyhow::anyhow!("broken pipe")));
        }
        if st.stall {
            st.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: Vec<u8>) -> Result<(), anyhow::Error> {
        let now = (Instant::now() - self.1).as_millis() as u64;
        self.0.lock().unwrap().packets.push((now, item));
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), anyhow::Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), anyhow::Error>> {
        Poll::Ready(Ok(()))
    }
}
impl Drop for SimSink {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}

#[derive(Clone)]
pub struct Client {
    inp: Arc<Mutex<InState>>,
    out: Arc<Mutex<OutState>>,
}

impl Client {
    pub fn send(&self, packet: Vec<u8>) {
        let mut st = self.inp.lock().unwrap();
        st.queue.push_back(packet);
        if let Some(w) = st.waker.take() {
            w.wake()
        }
    }
    pub fn close_input(&self) {
        let mut st = self.inp.lock().unwrap();
        st.closed = true;
        if let Some(w) = st.waker.take() {
            w.wake()
        }
    }
    pub fn fail_output(&self) {
        let mut st = self.out.lock().unwrap();
        st.fail = true;
        if let Some(w) = st.waker.take() {
            w.wake()
        }
    }
    pub fn stall(&self, on: bool) {
        let mut st = self.out.lock().unwrap();
        st.stall = on;
        if let Some(w) = st.waker.take() {
            w.wake()
        }
    }
    /// Raw output packets with the virtual time (ms) of their emission.
    pub fn take(&self) -> Vec<(u64, Vec<u8>)> {
        std::mem::take(&mut self.out.lock().unwrap().packets)
    }
    /// The server dropped both halves.
    pub fn server_dropped(&self) -> bool {
        self.inp.lock().unwrap().dropped && self.out.lock().unwrap().dropped
    }
}

/// Estimator under the control of the harness: a pure function of the handles
/// and of the current epoch.
#[derive(Clone, Default)]
pub struct Est(pub Arc<AtomicU32>);

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}

/// (range, azimuth, elevation) or None.
pub fn est(left: usize, right: usize, epoch: u32) -> Option<(u16, i16, i8)> {
    let h = mix((left as u64) << 40 ^ (right as u64) << 16 ^ epoch as u64 ^ 0x9e3779b97f4a7c15);
    if epoch % 4 == 3 && h & 3 == 0 {
        return None;
    }
    let pick = |b: u64, v: u64, lo: i64, hi: i64| -> i64 {
        match b & 7 {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => -1i64.max(lo),
            _ => lo + (v % (hi - lo + 1) as u64) as i64,
        }
    };
    let h2 = mix(h);
    let h3 = mix(h2);
    Some((
        pick(h >> 8, h >> 16, 0, 65535) as u16,
        pick(h2, h2 >> 16, -180, 180) as i16,
        pick(h3, h3 >> 16, -90, 90) as i8,
    ))
}

impl RangingEstimator for Est {
    fn estimate(&self, left: &Handle, right: &Handle) -> Option<RangingMeasurement> {
        est(*left, *right, self.0.load(Ordering::SeqCst)).map(|(range, azimuth, elevation)| {
            RangingMeasurement {
                range,
                azimuth,
                elevation,
            }
        })
    }
}

#[derive(Default)]
struct GateState {
    closed: bool,
    waker: Option<Waker>,
}

pub struct Sim {
    pub born: std::time::Instant,
    pub base: Instant,
    pub commands: mpsc::Sender<PicaCommand>,
    events: broadcast::Receiver<PicaEvent>,
    pub epoch: Arc<AtomicU32>,
    gate: Arc<Mutex<GateState>>,
    loop_task: tokio::task::JoinHandle<anyhow::Result<()>>,
    /// run by `pica::run`, which shares the context
    shared: Option<Arc<Mutex<Pica>>>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Event {
    Connected(usize, Vec<u8>),
    Disconnected(usize, Vec<u8>),
    Lagged(u64),
}

impl Sim {
    pub fn new(pcapng: Option<PathBuf>) -> Sim {
        Self::with(pcapng, false)
    }

    /// `shared`: run by `pica::run`, otherwise by `Pica::run`.
    pub fn with(pcapng: Option<PathBuf>, shared: bool) -> Sim {
        let born = std::time::Instant::now();
        let est = Est::default();
        let epoch = est.0.clone();
        let pica = Pica::new(Box::new(est), pcapng);
        let commands = pica.commands();
        let events = pica.events();
        let gate = Arc::new(Mutex::new(GateState::default()));
        let g = gate.clone();
        let (shared, fut) = if shared {
            let pica = Arc::new(Mutex::new(pica));
            let p = pica.clone();
            let fut: BoxFuture<'static, anyhow::Result<()>> =
                Box::pin(async move { pica::run(&p).await });
            (Some(pica), fut)
        } else {
            let fut: BoxFuture<'static, anyhow::Result<()>> = Box::pin(pica.run());
            (None, fut)
        };
        let loop_task = tokio::spawn(async move {
            let mut fut = fut;
            futures::future::poll_fn(move |cx| {
                {
                    let mut g = g.lock().unwrap();
                    if g.closed {
                        g.waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                }
                fut.as_mut().poll(cx)
            })
            .await
        });
        Sim {
            born,
            base: Instant::now(),
            commands,
            events,
            epoch,
            gate,
            loop_task,
            shared,
        }
    }

    pub fn now(&self) -> u64 {
        (Instant::now() - self.base).as_millis() as u64
    }

    pub async fn sleep_until(&self, ms: u64) {
        tokio::time::sleep_until(self.base + Duration::from_millis(ms)).await
    }

    /// Let every runnable task run without advancing the clock.
    pub async fn drain(&self) {
        for _ in 0..200 {
            tokio::task::yield_now().await
        }
    }

    pub fn gate(&self, closed: bool) {
        let mut g = self.gate.lock().unwrap();
        g.closed = closed;
        if !closed {
            if let Some(w) = g.waker.take() {
                w.wake()
            }
        }
    }

    pub fn alive(&self) -> bool {
        !self.loop_task.is_finished()
    }

    pub fn connect(&self) -> Client {
        let inp = Arc::new(Mutex::new(InState::default()));
        let out = Arc::new(Mutex::new(OutState::default()));
        let stream = Box::pin(SimStream(inp.clone()));
        let sink = Box::pin(SimSink(out.clone(), self.base));
        let _ = self
            .commands
            .try_send(PicaCommand::Connect(stream, sink));
        Client { inp, out }
    }

    pub fn is_shared(&self) -> bool {
        self.shared.is_some()
    }

    /// Connect with `Pica::add_device`: the handle, unless the loop is dead.
    pub fn add_device(&self) -> (Client, Option<usize>) {
        let inp = Arc::new(Mutex::new(InState::default()));
        let out = Arc::new(Mutex::new(OutState::default()));
        let stream = Box::pin(SimStream(inp.clone()));
        let sink = Box::pin(SimSink(out.clone(), self.base));
        let handle = match self.shared.as_ref().unwrap().lock() {
            Ok(mut pica) => pica.add_device(stream, sink).ok(),
            Err(_) => None,
        };
        (Client { inp, out }, handle)
    }

    pub fn anchor(
        &self,
        create: bool,
        addr: pica::MacAddress,
    ) -> oneshot::Receiver<Result<Handle, pica::PicaCommandError>> {
        let (tx, rx) = oneshot::channel();
        let _ = self.commands.try_send(if create {
            PicaCommand::CreateAnchor(addr, tx)
        } else {
            PicaCommand::DestroyAnchor(addr, tx)
        });
        rx
    }

    pub fn take_events(&mut self) -> Vec<Event> {
        let mut v = vec![];
        loop {
            match self.events.try_recv() {
                Ok(PicaEvent::Connected {
                    handle,
                    mac_address,
                }) => v.push(Event::Connected(handle, mac_address.into())),
                Ok(PicaEvent::Disconnected {
                    handle,
                    mac_address,
                }) => v.push(Event::Disconnected(handle, mac_address.into())),
                Err(broadcast::error::TryRecvError::Lagged(n)) => v.push(Event::Lagged(n)),
                Err(_) => return v,
            }
        }
    }
}

/// Run an async case on a fresh current-thread runtime with a paused clock.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(f)
}

pub fn mac(bytes: &[u8]) -> pica::MacAddress {
    if bytes.len() == 2 {
        pica::MacAddress::Short(bytes.try_into().unwrap())
    } else {
        pica::MacAddress::Extended(bytes.try_into().unwrap())
    }
}
