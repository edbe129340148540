//! Enumeration of the leaves of a JSON document, for single-element tampering.
use serde_json::Value;

/// The paths (JSON pointers) of all leaves (strings, numbers, booleans, nulls).
pub fn leaves(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: &str, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    go(x, &format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out)
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    go(x, &format!("{}/{}", at, i), out)
                }
            }
            _ => out.push(at.to_string()),
        }
    }
    let mut out = vec![];
    go(v, "", &mut out);
    out
}
/// The paths of all containers (objects and arrays), the root included.
pub fn containers(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: &str, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => {
                out.push(at.to_string());
                for (k, x) in m {
                    go(x, &format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out)
                }
            }
            Value::Array(a) => {
                out.push(at.to_string());
                for (i, x) in a.iter().enumerate() {
                    go(x, &format!("{}/{}", at, i), out)
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, "", &mut out);
    out
}
pub fn get<'a>(v: &'a Value, p: &str) -> &'a Value {
    v.pointer(p).expect("pointer")
}
pub fn with(v: &Value, p: &str, new: Value) -> Value {
    let mut v = v.clone();
    *v.pointer_mut(p).expect("pointer") = new;
    v
}
/// Removes the element the pointer denotes from its parent container.
pub fn without(v: &Value, p: &str) -> Value {
    let mut v = v.clone();
    let k = p.rfind('/').expect("not the root");
    let (parent, last) = (&p[..k], p[k + 1..].replace("~1", "/").replace("~0", "~"));
    match v.pointer_mut(parent).expect("parent") {
        Value::Object(m) => {
            m.remove(&last);
        }
        Value::Array(a) => {
            let i: usize = last.parse().expect("index");
            a.remove(i);
        }
        _ => unreachable!(),
    }
    v
}
