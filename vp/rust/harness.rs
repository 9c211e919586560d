// Gives the verifier the public interface of the real lib.rs under fixed names, and layouts from the compiler.
#[path = "LIB"] mod w;
use w::*;
use std::ffi::{CString, NulError}; use std::mem::{offset_of, size_of}; use std::pin::Pin; use std::task::{Context, Poll}; use futures::Stream;
#[repr(C)] pub struct View { time: i64, path: *const u8, path_n: usize, has: u64, assoc: *const u8, assoc_n: usize, et: u8, pt: u8 }
#[no_mangle] pub static vp_rust: [u64; 8] = [size_of::<Watch>() as u64, size_of::<View>() as u64, size_of::<wtr_watcher_event>() as u64, offset_of!(wtr_watcher_event, effect_time) as u64, offset_of!(wtr_watcher_event, path_name) as u64, offset_of!(wtr_watcher_event, associated_path_name) as u64, offset_of!(wtr_watcher_event, effect_type) as u64, offset_of!(wtr_watcher_event, path_type) as u64];
#[no_mangle] pub static vp_codes: [i8; 12] = [CODES];
#[no_mangle] pub unsafe extern "C" fn vp_new(p: *const u8, n: usize, out: *mut Watch) -> bool { match Watch::try_new(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))) { Ok(w) => { out.write(w); true } Err(_) => false } }
#[no_mangle] pub unsafe extern "C" fn vp_close(w: *mut Watch) -> bool { (*w).close().is_ok() }
#[no_mangle] pub unsafe extern "C" fn vp_drop(w: *mut Watch) { std::ptr::drop_in_place(w) }
#[no_mangle] pub unsafe extern "C" fn vp_next(w: *mut Watch, cx: *mut u8, out: *mut View) -> u8 {
  match Pin::new_unchecked(&mut *w).poll_next(&mut *(cx as *mut Context)) {
    Poll::Pending => 0, Poll::Ready(None) => 1,
    Poll::Ready(Some(e)) => {
      let e = std::mem::ManuallyDrop::new(e);
      let et = match e.effect_type { EffectType::Rename => 0, EffectType::Modify => 1, EffectType::Create => 2, EffectType::Destroy => 3, EffectType::Owner => 4, EffectType::Other => 5 };
      let pt = match e.path_type { PathType::Dir => 0, PathType::File => 1, PathType::HardLink => 2, PathType::SymLink => 3, PathType::Watcher => 4, PathType::Other => 5 };
      let (has, assoc, assoc_n) = match &e.associated_path_name { None => (0, std::ptr::null(), 0), Some(s) => (1, s.as_ptr(), s.len()) };
      out.write(View { time: e.effect_time, path: e.path_name.as_ptr(), path_n: e.path_name.len(), has, assoc, assoc_n, et, pt });
      2
    }
  }
}
// what the contracts of the standard library write is read back through these
#[no_mangle] pub unsafe extern "C" fn vp_ok_str(r: *const Result<&'static str, std::str::Utf8Error>, p: *mut *const u8, n: *mut usize) -> bool { match &*r { Ok(s) => { *p = s.as_ptr(); *n = s.len(); true } Err(_) => false } }
#[no_mangle] pub unsafe extern "C" fn vp_ok_cstr(r: *const Result<CString, NulError>, p: *mut *const u8, n: *mut usize) -> bool { match &*r { Ok(s) => { *p = s.as_ptr() as *const u8; *n = s.as_bytes_with_nul().len(); true } Err(_) => false } }
#[no_mangle] pub extern "C" fn vp_cx(f: extern "C" fn(*mut Context, *mut u8), p: *mut u8) { f(&mut Context::from_waker(std::task::Waker::noop()), p) }
