// The contract of the futures crate's channels, for the verifier: every operation is a call it interprets.
pub mod channel { pub mod mpsc {
  use std::marker::PhantomData; use std::mem::{size_of, ManuallyDrop, MaybeUninit}; use std::pin::Pin; use std::task::{Context, Poll};
  unsafe extern "C" {
    fn vp_chan(room: usize) -> *mut u8; fn vp_send(c: *mut u8, v: *mut u8, n: usize) -> u8; fn vp_poll(c: *mut u8, v: *mut u8, n: usize, cx: *mut u8) -> u8;
    fn vp_clone_tx(c: *mut u8); fn vp_drop_tx(c: *mut u8); fn vp_drop_rx(c: *mut u8); fn vp_close_rx(c: *mut u8); fn vp_shut(c: *mut u8) -> bool;
  }
  pub struct UnboundedSender<T>(*mut u8, PhantomData<T>);
  pub struct UnboundedReceiver<T>(*mut u8, PhantomData<T>);
  pub struct Sender<T>(*mut u8, PhantomData<T>);
  pub struct Receiver<T>(*mut u8, PhantomData<T>);
  pub struct TrySendError<T>(T, u8);
  impl<T> TrySendError<T> { pub fn is_full(&self) -> bool { self.1 == 2 } pub fn is_disconnected(&self) -> bool { self.1 == 1 } pub fn into_inner(self) -> T { self.0 } }
  pub struct SendError;
  fn send<T>(c: *mut u8, v: T) -> Result<(), TrySendError<T>> { let mut v = ManuallyDrop::new(v); match unsafe { vp_send(c, &mut v as *mut _ as *mut u8, size_of::<T>()) } { 0 => Ok(()), k => Err(TrySendError(ManuallyDrop::into_inner(v), k)) } }
  fn poll<T>(c: *mut u8, cx: *mut u8) -> Poll<Option<T>> { let mut r = MaybeUninit::<T>::uninit(); match unsafe { vp_poll(c, r.as_mut_ptr() as *mut u8, size_of::<T>(), cx) } { 0 => Poll::Pending, 1 => Poll::Ready(None), _ => Poll::Ready(Some(unsafe { r.assume_init() })) } }
  pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let c = unsafe { vp_chan(usize::MAX) }; (UnboundedSender(c, PhantomData), UnboundedReceiver(c, PhantomData)) }
  pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) { let c = unsafe { vp_chan(n) }; (Sender(c, PhantomData), Receiver(c, PhantomData)) }
  impl<T> UnboundedSender<T> { pub fn unbounded_send(&self, v: T) -> Result<(), TrySendError<T>> { send(self.0, v) } pub fn start_send(&mut self, v: T) -> Result<(), SendError> { send(self.0, v).map_err(|_| SendError) } }
  impl<T> Sender<T> { pub fn try_send(&mut self, v: T) -> Result<(), TrySendError<T>> { send(self.0, v) } pub fn start_send(&mut self, v: T) -> Result<(), SendError> { send(self.0, v).map_err(|_| SendError) } }
  macro_rules! tx { ($t:ident) => {
    impl<T> $t<T> { pub fn is_closed(&self) -> bool { unsafe { vp_shut(self.0) } } }
    impl<T> Clone for $t<T> { fn clone(&self) -> Self { unsafe { vp_clone_tx(self.0) }; $t(self.0, PhantomData) } }
    impl<T> Drop for $t<T> { fn drop(&mut self) { unsafe { vp_drop_tx(self.0) } } } } }
  tx!(UnboundedSender); tx!(Sender);
  macro_rules! rx { ($t:ident) => {
    impl<T> $t<T> { pub fn close(&mut self) { unsafe { vp_close_rx(self.0) } } pub fn try_next(&mut self) -> Result<Option<T>, SendError> { match poll(self.0, std::ptr::null_mut()) { Poll::Pending => Err(SendError), Poll::Ready(v) => Ok(v) } } }
    impl<T> Drop for $t<T> { fn drop(&mut self) { unsafe { vp_drop_rx(self.0) } } }
    impl<T> Unpin for $t<T> {}
    impl<T> crate::Stream for $t<T> { type Item = T; fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { poll(self.0, cx as *mut _ as *mut u8) } } } }
  rx!(UnboundedReceiver); rx!(Receiver);
} }
pub mod stream { pub use crate::Stream; pub use crate::StreamExt; }
pub trait Stream { type Item; fn poll_next(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>>; }
pub trait StreamExt: Stream { fn poll_next_unpin(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> where Self: Unpin { std::pin::Pin::new(self).poll_next(cx) } }
impl<S: Stream + ?Sized> StreamExt for S {}
