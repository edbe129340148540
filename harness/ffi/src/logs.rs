//! F04: nothing secret is written to the log.
use crate::abi::*;
use crate::cl::*;
use mc::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_void};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LINES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static SECRETS: RefCell<BTreeMap<String, String>> = const { RefCell::new(BTreeMap::new()) };
}
extern "C" fn enabled(_: *const c_void, _: u32, _: *const c_char) -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}
extern "C" fn log(_: *const c_void, _: u32, _: *const c_char, m: *const c_char, _: *const c_char, _: *const c_char, _: u32) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let t = unsafe { CStr::from_ptr(m) }.to_string_lossy().to_string();
        let _ = LINES.try_with(|l| l.borrow_mut().push(t));
    }
}
/// The parts of a document are secret from here on.
pub fn secret(what: &str, v: &Value) {
    if !ON.with(|o| o.get()) { return }
    for p in jsonmut::leaves(v) {
        if let Value::String(t) = jsonmut::get(v, &p) {
            if t.len() > 16 { SECRETS.with(|s| s.borrow_mut().insert(t.clone(), format!("{}{}", what, p))); }
        }
    }
}
pub fn secret_bytes(what: &str, b: &[u8]) {
    if !ON.with(|o| o.get()) { return }
    let list = format!("{:?}", b);
    SECRETS.with(|s| { let mut s = s.borrow_mut(); s.insert(hexs(b), what.into()); s.insert(list[1..list.len() - 1].into(), what.into()); });
}
fn watched(f: impl FnOnce() -> R) -> Result<(usize, BTreeMap<String, String>), Violation> {
    LINES.with(|l| l.borrow_mut().clear());
    SECRETS.with(|l| l.borrow_mut().clear());
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    r?;
    let lines = LINES.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let secrets = SECRETS.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let mut out = BTreeMap::new();
    for l in &lines {
        let u = l.to_uppercase();
        for (s, what) in &secrets {
            if u.contains(&s.to_uppercase()) { out.entry(what.clone()).or_insert_with(|| short(l)); }
        }
    }
    Ok((lines.len(), out))
}
fn cl_logs(c: &mut Ctx) -> R {
    let all = issuers();
    let rev = c.pick("revocation", &[0, 1, 2]);
    let dev = c.choose("deviation", DEV.len());
    let sh = if dev == 0 || c.thorough() { c.choose("shape", 3) } else { 0 };
    c.state(&(rev, dev, sh));
    let dev = DEV[dev];
    let v = shape(sh, "28");
    let (n, found) = watched(|| {
        let (i, other) = (iss2(&all[0]), iss2(&all[1]));
        secret("the private key", &jval(&i.r.sk));
        secret("the master secret", &json!([v[0].2]));
        run(&mut Ctx::scratch(), &i, &other, &v, rev, dev, true)
    })?;
    c.steps(n as u64);
    c.ensure(n > 100, "no-log", || format!("only {} lines are logged", n))?;
    for (what, line) in found { c.soft(&what.replace(' ', "-"), &format!("{}: {}", what, line)); }
    Ok(())
}
use crate::world::jval;
/// Private documents through JSON, whole and damaged.
fn documents(c: &mut Ctx) -> R {
    let k = crate::misuse::kit();
    let d = [d_sk(), d_rks(), d_gen()][c.choose("document", 3)];
    let v = &k.docs[d.name];
    let text = v.to_string();
    let leaves = jsonmut::leaves(v);
    let t = match c.choose("edit", 4) {
        0 => text.clone(),
        1 => { let n = c.choose("cut after", 32) * text.len() / 32; text[..n].to_string() }
        2 => { let p = &leaves[c.choose("without", leaves.len())]; jsonmut::without(v, p).to_string() }
        _ => { let p = &leaves[c.choose("at", leaves.len())]; let n = c.pick("instead", &[json!(null), json!("x"), json!([]), json!(1)]); jsonmut::with(v, p, n).to_string() }
    };
    c.state(&(d.name, &t));
    let private: Vec<&String> = leaves.iter().filter(|p| ["/p", "/q", "/gamma", "/x", "/sk"].iter().any(|e| p.ends_with(e))).collect();
    c.ensure(!private.is_empty(), "private", || format!("no private part in {:?}", leaves))?;
    let (n, found) = watched(|| {
        for p in &private { secret(&format!("{} {}", d.name, p), &json!([jsonmut::get(v, p)])) }
        if let Ok(h) = d.read_text(&t) { let _ = d.write(h.p); }
        Ok(())
    })?;
    c.steps(n as u64);
    c.ensure(n > 0, "no-log", || "nothing is logged".into())?;
    for (what, line) in found { c.soft(&what.replace(' ', "-"), &format!("{}: {}", what, line)); }
    Ok(())
}
fn bls_logs(c: &mut Ctx) -> R {
    let msg = c.pick("message", &[&b"m"[..], &[0; 40]]);
    let (seed, turn) = (c.choose("seed", 3), c.flag("through bytes"));
    c.state(&(msg, seed, turn));
    let (n, found) = watched(|| crate::prims::honest(seed, msg, turn))?;
    c.steps(n as u64);
    c.ensure(n > 10, "no-log", || format!("only {} lines are logged", n))?;
    for (what, line) in found { c.soft(&what.replace(' ', "-"), &format!("{}: {}", what, line)); }
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    use std::sync::Once;
    static O: Once = Once::new();
    O.call_once(|| { assert_eq!(call(ursa::ffi::logger::ursa_set_logger as usize, &[0, enabled as usize, log as usize, 0]), 0) });
    Check {
        rule: "An execution runs calls with a logger that takes every line of every level, in a build in which the library masks what is secret (no debug assertions), and searches all lines for the texts and bytes of what is secret, in decimal, hexadecimal and as lists of numbers.".into(),
        assumptions: vec!["a secret is found in the forms in which the library writes it: the text of its JSON, hexadecimal digits, a list of bytes".into()],
        scenarios: vec![
            Scenario::new("protocol", "the whole protocol through both APIs x 3 kinds of registry x 36 deviations (x 3 kinds of values for none): the private keys, the master secret, the blinding factors", cl_logs),
            Scenario::new("documents", "3 kinds of private documents: as they are, 32 cuts, every part left out, every part replaced by 4 values", documents),
            Scenario::new("bls", "keys, signatures, proofs of possession and multi-signatures from 3 seeds x 2 messages x with and without bytes", bls_logs),
        ],
    }
}
