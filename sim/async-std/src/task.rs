use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll as P};
use std::time::Duration;

pub use std::task::{Context, Poll, Waker};

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> P<()> {
            if self.0 {
                return P::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            simrt::yield_now();
            P::Pending
        }
    }
    Y(false).await
}

pub async fn sleep(d: Duration) {
    simrt::sleep(d.as_nanos() as u64).await
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    simrt::block_on(f)
}

struct Slot<T> {
    value: Option<T>,
    waker: Option<Waker>,
}

/// Handle of a spawned task; dropping it detaches the task.
pub struct JoinHandle<T>(std::rc::Rc<std::cell::RefCell<Slot<T>>>);
// The simulator runs all tasks on one thread.
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> P<T> {
        let mut s = self.0.borrow_mut();
        match s.value.take() {
            Some(v) => P::Ready(v),
            None => {
                s.waker = Some(cx.waker().clone());
                simrt::waiting_for("a spawned task");
                P::Pending
            }
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    // no Send bounds: the simulator runs everything on one thread
    F: Future<Output = T> + 'static,
    T: 'static,
{
    spawn_local(f)
}

pub fn spawn_local<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    let slot = std::rc::Rc::new(std::cell::RefCell::new(Slot { value: None, waker: None }));
    let s2 = slot.clone();
    simrt::spawn("spawned", move || {
        let v = simrt::block_on(f);
        let mut s = s2.borrow_mut();
        s.value = Some(v);
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    });
    simrt::preempt("spawn");
    JoinHandle(slot)
}

pub async fn spawn_blocking<F, T>(f: F) -> T
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    yield_now().await;
    f()
}
