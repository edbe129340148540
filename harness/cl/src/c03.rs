//! C03: predicate proofs decide the predicate, at every edge of the 32-bit range.
use crate::world::*;
use mc::*;
use std::sync::Arc;
use ursa::cl::helpers::four_squares;

const TYPES: [&str; 4] = ["GE", "GT", "LE", "LT"];
fn edges(t: Tier) -> Vec<i64> {
    let mut v = vec![0, 17, 18, -1, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1];
    if t == Tier::Thorough {
        v.extend(vec![1, -18, i32::MAX as i64 - 1, 65535, 65536, 1 << 30, -(1 << 30)]);
    }
    v
}
fn holds(t: &str, v: i64, threshold: i64) -> bool {
    match t {
        "GE" => v >= threshold,
        "GT" => v > threshold,
        "LE" => v <= threshold,
        _ => v < threshold,
    }
}
/// A predicate over an attribute value: provable exactly if it holds; what is proven is accepted.
fn decide(w: &World, creds: &[(i64, Cred)], vals: &[i64], c: &mut Ctx) -> R {
    let k = c.choose("value", creds.len());
    let t = c.pick("type", &TYPES);
    let threshold = c.pick("threshold", vals);
    let second = c.choose("second predicate", c.q(2, 4));
    let (v, cred) = &creds[k];
    let mut preds = vec![("age", t, threshold as i32)];
    match second {
        1 => preds.push(("sex", "GT", 0)),
        2 => preds.push(("age", "GE", i32::MIN)),
        3 => preds.push(("age", "LE", i32::MAX)),
        _ => (),
    }
    let q = req(&["name"], &preds);
    let nonce = new_nonce();
    c.state(&(v, t, threshold, second));
    let what = || format!("value {} {} {} (with predicate set {:?})", v, t, threshold, preds);
    let p = guard(|| prove(&[Part { iss: &w.i1, cred, req: q.clone(), rev: None }], &[], &nonce));
    c.step();
    let ok = holds(t, *v, threshold);
    match p {
        Err(p) => violation("predicate:prover-panic", format!("{}: the prover panics: {}", what(), p)),
        Ok(Err(e)) if ok => violation("predicate:unprovable", format!("{}: holds, but: {}", what(), short(&e.to_string()))),
        Ok(Err(_)) => {
            c.outcome("not provable");
            Ok(())
        }
        // The library's own prover says so when a predicate does not hold, whoever may see what it makes.
        Ok(Ok(_)) if !ok => violation("predicate:false-proof", format!("{}: does not hold, but the prover makes a proof of it", what())),
        Ok(Ok(p)) => expect(c, judge(|| verify(&p, &[Want::of(&w.i1, &q)], &[], &nonce)), ok, "predicate", what),
    }
}
fn new_nonce() -> ursa::cl::Nonce {
    ursa::cl::new_nonce().unwrap()
}

/// Attribute values outside the 32-bit range have no predicates; asking is an error, not a panic or a proof.
fn outside(w: &World, creds: &[(String, Cred)], c: &mut Ctx) -> R {
    let k = c.choose("value", creds.len());
    let t = c.pick("type", &TYPES);
    let threshold = c.pick("threshold", &[0i32, 17, -1, i32::MAX, i32::MIN]);
    let (v, cred) = &creds[k];
    let q = req(&[], &[("age", t, threshold)]);
    let nonce = new_nonce();
    c.state(&(v, t, threshold));
    c.step();
    match guard(|| prove(&[Part { iss: &w.i1, cred, req: q.clone(), rev: None }], &[], &nonce)) {
        Err(p) => violation("outside:panic", format!("value {} {} {}: {}", v, t, threshold, p)),
        Ok(Err(_)) => {
            c.outcome("refused");
            Ok(())
        }
        Ok(Ok(p)) => {
            let true_ = (t == "GE" || t == "GT") != v.starts_with('-');
            match judge(|| verify(&p, &[Want::of(&w.i1, &q)], &[], &nonce)) {
                Verdict::Panicked(p) => violation("outside:panic", p),
                Verdict::Accepted if !true_ => violation("outside:accepted", format!("value {} {} {} proven and accepted", v, t, threshold)),
                Verdict::Accepted => {
                    c.outcome("accepted");
                    Ok(())
                }
                _ => violation("outside:useless", format!("value {} {} {}: the prover makes a proof that no verifier takes", v, t, threshold)),
            }
        }
    }
}

fn check_squares(c: &mut Ctx, n: i64) -> R {
    match guard(|| four_squares(n)) {
        Err(p) => violation("squares:panic", format!("four_squares({}): {}", n, p)),
        Ok(Err(e)) if n >= 0 => violation("squares:refused", format!("four_squares({}): {}", n, e)),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(r)) => {
            let mut sum: i128 = 0;
            for k in 0..4 {
                let d = r.get(&k.to_string()).and_then(|b| b.to_dec().ok()).and_then(|d| d.parse::<i128>().ok());
                match d {
                    Some(d) => sum += d * d,
                    None => return violation("squares:incomplete", format!("four_squares({}) lacks root {}", n, k)),
                }
            }
            c.ensure(r.len() == 4 && sum == n as i128, "squares:sum", || format!("four_squares({}): the squares sum up to {}", n, sum))
        }
    }
}
/// Every natural number in the range is the sum of the four squares returned.
fn squares(c: &mut Ctx) -> R {
    let (blocks, size) = c.q((64, 4096), (512, 8192));
    let b = c.choose("block", blocks + 1);
    c.state(&b);
    if b == blocks {
        // around every power of two and four, and the largest differences of two 32-bit numbers
        let mut n: Vec<i64> = vec![-1, i64::from(i32::MIN), 7 * (1 << 28), u32::MAX as i64, u32::MAX as i64 + 1];
        for p in 2..=32u32 {
            for m in &[1i64, 3, 7] {
                for d in -3..=3i64 {
                    let v = (*m << p) + d;
                    if v <= u32::MAX as i64 + 1 {
                        n.push(v);
                    }
                }
            }
        }
        for v in n {
            c.step();
            check_squares(c, v)?;
        }
        c.outcome("edges");
        return Ok(());
    }
    for v in b * size..(b + 1) * size {
        check_squares(c, v as i64)?;
    }
    c.steps(size as u64);
    c.outcome("range");
    Ok(())
}

pub fn build(t: Tier) -> Check {
    let w = world();
    let vals = edges(t);
    let mk = |age: &str| {
        let mut v = std_vals(MS1, age, NAME);
        v[3].2 = "1".into();
        issue(&w.i1, &v, PROVER_ID).unwrap()
    };
    let creds: Arc<Vec<(i64, Cred)>> = Arc::new(vals.iter().map(|a| (*a, mk(&a.to_string()))).collect());
    let odd: Arc<Vec<(String, Cred)>> = Arc::new(
        ["2147483648", "-2147483649", "4294967295", "4294967296", "4294967314", "18446744073709551616", "18446744073709551634", MAX256]
            .iter().map(|a| (a.to_string(), mk(a))).collect(),
    );
    let (w1, w2) = (w.clone(), w);
    Check {
        rule: "An execution issues no new credential: it asks for one predicate (or two) over one attribute value, proves, verifies and compares the verdict with the predicate evaluated on integers; or it decomposes a block of consecutive numbers into four squares. A state is one (value, type, threshold, further predicate) or one block.".into(),
        assumptions: vec!["2048-bit keys from fixed seeds; values and thresholds from the edges of the 32-bit range".into()],
        scenarios: vec![
            Scenario::new("decide", "7 (14) edge values x 4 types x 7 (14) thresholds x 2 (4) further predicates", move |c| decide(&w1, &creds, &vals, c)),
            Scenario::new("outside", "8 values outside 32 bits x 4 types x 5 thresholds", move |c| outside(&w2, &odd, c)),
            Scenario::new("squares", "all numbers below 262144 (4194304), and around powers of two up to 2^32", squares),
        ],
    }
}
