//! Calls of the C functions by address, the way a C program sees them: every argument a register.
use mc::*;
use std::ffi::{CStr, CString};
use std::mem::transmute;
use std::os::raw::c_char;

/// Brings all sources of randomness of this thread into a state that `n` determines: the thread's generator reads a new
/// seed as soon as it has given out its fill.
pub fn reseed(n: u64) {
    use rand::RngCore;
    let mut r = rand::thread_rng();
    rng::seed(n);
    let d = rng::drawn();
    while rng::drawn() == d {
        r.next_u32();
    }
}
pub fn call(f: usize, a: &[usize]) -> usize {
    macro_rules! go {
        ($($n:literal => ($($i:literal)*)),*) => { match a.len() { $($n => unsafe { transmute::<usize, extern "C" fn($(go!(@ $i)),*) -> usize>(f)($(a[$i]),*) },)* n => panic!("{} arguments", n) } };
        (@ $i:literal) => { usize };
    }
    go!(1 => (0), 2 => (0 1), 3 => (0 1 2), 4 => (0 1 2 3), 5 => (0 1 2 3 4), 6 => (0 1 2 3 4 5), 7 => (0 1 2 3 4 5 6), 8 => (0 1 2 3 4 5 6 7),
        9 => (0 1 2 3 4 5 6 7 8), 10 => (0 1 2 3 4 5 6 7 8 9), 19 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18))
}

/// A handle that the C API gave out, with the function that frees it.
pub struct H {
    pub p: usize,
    pub free: usize,
}
impl H {
    pub fn new(p: usize, free: usize) -> H {
        H { p, free }
    }
    /// The callee has taken the object.
    pub fn taken(mut self) -> usize {
        let p = self.p;
        self.p = 0;
        p
    }
}
impl Drop for H {
    fn drop(&mut self) {
        if self.p != 0 && self.free != 0 {
            let code = call(self.free, &[self.p]);
            assert_eq!(code, 0, "a handle could not be freed");
        }
    }
}
pub struct S(CString);
pub fn s(x: &str) -> S {
    S(CString::new(x).expect("no NUL"))
}
impl S {
    pub fn p(&self) -> usize {
        self.0.as_ptr() as usize
    }
}
/// An output argument with something in it that a call that fails must leave there.
pub struct Out(Box<usize>);
pub const UNTOUCHED: usize = 0x5eed_0bad_c0de_5a5a;
impl Out {
    pub fn new() -> Out {
        Out(Box::new(UNTOUCHED))
    }
    pub fn p(&self) -> usize {
        &*self.0 as *const usize as usize
    }
    pub fn get(&self) -> usize {
        unsafe { std::ptr::read_volatile(&*self.0) }
    }
    pub fn untouched(&self) -> bool {
        self.get() == UNTOUCHED
    }
}
/// Reads a string that the C API gave out and frees it.
pub fn take_string(p: usize) -> String {
    let t = unsafe { CStr::from_ptr(p as *const c_char) }.to_str().expect("UTF-8").to_string();
    unsafe { ursa::ffi::ursa_string_free(p as *mut c_char) };
    t
}
/// The last error of this thread: its message.
pub fn last_error() -> Option<String> {
    let mut p: *const c_char = std::ptr::null();
    ursa::ffi::ursa_get_current_error(&mut p);
    if p.is_null() {
        return None;
    }
    let t = unsafe { CStr::from_ptr(p) }.to_str().ok()?.to_string();
    let v: Value = serde_json::from_str(&t).ok()?;
    v["message"].as_str().map(|s| s.to_string())
}

/// A kind of document of the C API.
#[derive(Clone, Copy)]
pub struct Doc {
    pub name: &'static str,
    pub to: usize,
    pub from: usize,
    pub free: usize,
    /// What the Rust API makes of a document's text: read and written again.
    pub rust: fn(&str) -> Result<Value, String>,
}
impl Doc {
    pub fn read(&self, v: &Value) -> Result<H, usize> {
        self.read_text(&v.to_string())
    }
    pub fn read_text(&self, t: &str) -> Result<H, usize> {
        let o = Out::new();
        match call(self.from, &[s(t).p(), o.p()]) {
            0 => Ok(H::new(o.get(), self.free)),
            e => Err(e),
        }
    }
    pub fn write(&self, h: usize) -> Result<Value, usize> {
        let o = Out::new();
        match call(self.to, &[h, o.p()]) {
            0 => Ok(serde_json::from_str(&take_string(o.get())).expect("JSON")),
            e => Err(e),
        }
    }
}
