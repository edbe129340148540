//! Routes OpenSSL's random source through the explorer's generator.
use std::os::raw::{c_double, c_int, c_uchar, c_void};

#[repr(C)]
struct RandMethod {
    seed: Option<extern "C" fn(*const c_void, c_int) -> c_int>,
    bytes: Option<extern "C" fn(*mut c_uchar, c_int) -> c_int>,
    cleanup: Option<extern "C" fn()>,
    add: Option<extern "C" fn(*const c_void, c_int, c_double) -> c_int>,
    pseudorand: Option<extern "C" fn(*mut c_uchar, c_int) -> c_int>,
    status: Option<extern "C" fn() -> c_int>,
}
extern "C" fn r_seed(_: *const c_void, _: c_int) -> c_int {
    1
}
extern "C" fn r_bytes(p: *mut c_uchar, n: c_int) -> c_int {
    let s = unsafe { std::slice::from_raw_parts_mut(p, n as usize) };
    getrandom::fill(s);
    1
}
extern "C" fn r_add(_: *const c_void, _: c_int, _: c_double) -> c_int {
    1
}
extern "C" fn r_status() -> c_int {
    1
}
static METHOD: RandMethod = RandMethod {
    seed: Some(r_seed),
    bytes: Some(r_bytes),
    cleanup: None,
    add: Some(r_add),
    pseudorand: Some(r_bytes),
    status: Some(r_status),
};
extern "C" {
    fn RAND_set_rand_method(m: *const RandMethod) -> c_int;
}
pub fn install() {
    unsafe {
        RAND_set_rand_method(&METHOD);
    }
}
