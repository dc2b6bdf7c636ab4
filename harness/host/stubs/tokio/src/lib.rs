//! Stand-in for the runtime: spawned tasks wait in a queue of the thread until the harness runs one
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local! { static TASKS: RefCell<Vec<Option<Task>>> = const { RefCell::new(Vec::new()) }; }
fn waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
pub fn poll_once<T>(f: Pin<&mut (impl Future<Output = T> + ?Sized)>) -> Poll<T> { f.poll(&mut Context::from_waker(&waker())) }
pub fn tasks() -> Vec<usize> { TASKS.with(|t| t.borrow().iter().enumerate().filter(|(_, x)| x.is_some()).map(|(i, _)| i).collect()) }
pub fn clear_tasks() { let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut())); drop(t); }
/// polls one task; gone when it is finished
pub fn run_task(i: usize) {
    let Some(mut t) = TASKS.with(|t| t.borrow_mut().get_mut(i).and_then(|x| x.take())) else { return };
    if poll_once(t.as_mut()).is_pending() {
        TASKS.with(|ts| ts.borrow_mut()[i] = Some(t));
    }
}
pub fn spawn(f: impl Future<Output = ()> + 'static) -> task::JoinHandle<()> {
    TASKS.with(|t| { let mut t = t.borrow_mut(); t.push(Some(Box::pin(f))); task::JoinHandle(t.len() - 1, std::marker::PhantomData) })
}
pub mod task {
    pub struct JoinHandle<T>(pub(crate) usize, pub(crate) std::marker::PhantomData<T>);
    impl<T> JoinHandle<T> {
        pub fn abort(&self) { let t = crate::TASKS.with(|t| t.borrow_mut().get_mut(self.0).and_then(|x| x.take())); drop(t); }
    }
    pub use crate::spawn;
}
pub mod time {
    use std::cell::{Cell, RefCell};
    thread_local! { static SLEEPS: RefCell<Vec<std::time::Duration>> = const { RefCell::new(Vec::new()) }; static OVER: Cell<bool> = const { Cell::new(false) }; }
    /// how long was slept, or is to be
    pub fn sleeps() -> Vec<std::time::Duration> { SLEEPS.with(|s| s.borrow().clone()) }
    /// from now on every sleep is over
    pub fn wake_sleepers() { OVER.with(|o| o.set(true)) }
    pub async fn sleep(d: std::time::Duration) {
        SLEEPS.with(|s| s.borrow_mut().push(d));
        std::future::poll_fn(|_| if OVER.with(|o| o.get()) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }).await
    }
}
pub mod sync {
    pub mod mpsc {
        use std::collections::VecDeque;
        use std::sync::{Arc, Mutex};
        pub mod error {
            #[derive(Debug, PartialEq)]
            pub enum TryRecvError { Empty, Disconnected }
            #[derive(Debug)]
            pub struct SendError;
        }
        pub struct UnboundedSender<T>(Arc<Mutex<VecDeque<T>>>);
        impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { UnboundedSender(self.0.clone()) } }
        pub struct UnboundedReceiver<T>(Arc<Mutex<VecDeque<T>>>);
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let q = Arc::new(Mutex::new(VecDeque::new()));
            (UnboundedSender(q.clone()), UnboundedReceiver(q))
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, x: T) -> Result<(), error::SendError> { self.0.lock().unwrap().push_back(x); Ok(()) }
        }
        impl<T> UnboundedReceiver<T> {
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { self.0.lock().unwrap().pop_front().ok_or(error::TryRecvError::Empty) }
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|_| match self.0.lock().unwrap().pop_front() { Some(x) => std::task::Poll::Ready(Some(x)), None => std::task::Poll::Pending }).await
            }
        }
    }
}
