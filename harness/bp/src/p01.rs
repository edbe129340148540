//! P01: the inner product argument.
use crate::util::*;
use amcl_wrapper::field_elem::FieldElementVector;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::BulletproofError;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use mc::*;
use merlin::Transcript;

#[derive(Clone)]
struct Stmt { label: &'static [u8], n: usize, gf: Vec<F>, hf: Vec<F>, P: G1, u: G1, G: Vec<G1>, H: Vec<G1> }
fn vec_of(v: &[F]) -> FieldElementVector { v.to_vec().into() }
fn gv(v: &[G1]) -> G1Vector { v.to_vec().into() }
fn verify(s: &Stmt, p: &InnerProductArgumentProof) -> Result<(), BulletproofError> {
    let mut t = Transcript::new(s.label);
    IPP::verify_ipp(s.n, &mut t, &vec_of(&s.gf), &vec_of(&s.hf), &s.P, &s.u, &gv(&s.G), &gv(&s.H), &p.a, &p.b, &p.L, &p.R)
}
fn scalars(kind: usize, n: usize, salt: i64) -> Vec<F> {
    (0..n as i64).map(|i| match kind {
        0 => f(0),
        1 => f(1),
        2 => if i == 0 { f(-1) } else { f(0) },
        3 => f(3 * i + 2 + salt),
        _ => F::from_msg_hash(format!("{} {}", salt, i).as_bytes()),
    }).collect()
}
fn factors(kind: usize, n: usize, salt: i64) -> Vec<F> {
    match kind {
        0 => vec![f(1); n],
        1 => FieldElementVector::new_vandermonde_vector(&f(5 + salt), n).as_slice().to_vec(),
        _ => (0..n as i64).map(|i| F::from_msg_hash(format!("f {} {}", salt, i).as_bytes())).collect(),
    }
}
fn statement(n: usize, a: &[F], b: &[F], gf: Vec<F>, hf: Vec<F>) -> Stmt {
    let ge = gens(if n > 16 { 256 } else { 16 });
    let (G, H) = (ge.G.as_slice()[..n].to_vec(), ge.H.as_slice()[..n].to_vec());
    let u = ge.g.clone();
    let mut P = G1::identity();
    let mut ab = f(0);
    for i in 0..n {
        P = P + &G[i] * &(&a[i] * &gf[i]) + &H[i] * &(&b[i] * &hf[i]);
        ab = ab + &a[i] * &b[i];
    }
    P = P + &u * &ab;
    Stmt { label: b"ipp", n, gf, hf, P, u, G, H }
}
fn create(s: &Stmt, a: &[F], b: &[F]) -> InnerProductArgumentProof {
    let mut t = Transcript::new(s.label);
    IPP::create_ipp(&mut t, &s.u, &vec_of(&s.gf), &vec_of(&s.hf), &gv(&s.G), &gv(&s.H), &vec_of(a), &vec_of(b))
}
fn honest(c: &mut Ctx) -> R {
    let n = 1usize << c.choose("log n", c.q(4, 5));
    let (ka, kb) = (c.choose("a", 5), c.choose("b", 5));
    let (kg, kh) = (c.choose("G factors", 3), c.choose("H factors", 3));
    c.state(&(n, ka, kb, kg, kh));
    let (a, b) = (scalars(ka, n, 0), scalars(kb, n, 50));
    let s = statement(n, &a, &b, factors(kg, n, 0), factors(kh, n, 1));
    let p = c.no_panic("honest", "create_ipp", || create(&s, &a, &b))?;
    expect(c, true, "honest", || format!("the argument for {} elements", n), || verify(&s, &p))?;
    let q = InnerProductArgumentProof { a: &p.a + &f(1), ..p.clone() };
    // a and b count only where the folded generators do: with one of them fixed the other is determined
    expect(c, false, "honest:a", || "a + 1".into(), || verify(&s, &q))?;
    let q = InnerProductArgumentProof { b: &p.b + &f(1), ..p.clone() };
    expect(c, false, "honest:b", || "b + 1".into(), || verify(&s, &q))?;
    let t = Stmt { P: s.P.clone() + s.u.clone(), ..s.clone() };
    expect(c, false, "honest:P", || "another inner product".into(), || verify(&t, &p))?;
    let j: InnerProductArgumentProof = match serde_json::to_string(&p).map(|x| serde_json::from_str(&x)) {
        Ok(Ok(j)) => j,
        _ => return violation("honest:json", "the proof does not survive JSON"),
    };
    expect(c, true, "honest:json", || "the proof read from JSON".into(), || verify(&s, &j))
}
/// Replaces each element of a list by others, exchanges, drops, adds.
fn lists<T: Clone>(v: &[T], others: &[T]) -> Vec<(String, Vec<T>, bool)> {
    let mut out = vec![];
    for i in 0..v.len() {
        for (k, o) in others.iter().enumerate() {
            let mut x = v.to_vec();
            x[i] = o.clone();
            out.push((format!("element {} replaced by {}", i, k), x, true));
        }
        for j in 0..i {
            let mut x = v.to_vec();
            x.swap(i, j);
            out.push((format!("elements {} and {} exchanged", i, j), x, true));
        }
        let mut x = v.to_vec();
        x.remove(i);
        out.push((format!("element {} dropped", i), x, false));
    }
    for k in [0, v.len()].iter() {
        let mut x = v.to_vec();
        x.insert(*k, others[0].clone());
        out.push((format!("an element added at {}", k), x, false));
    }
    out.push(("empty".into(), vec![], false));
    out
}
fn deviations(c: &mut Ctx) -> R {
    let n = 1usize << c.choose("log n", c.q(4, 5));
    let kf = c.choose("factors", 3);
    c.state(&(n, kf));
    let (a, b) = (scalars(4, n, 0), scalars(3, n, 50));
    let s = statement(n, &a, &b, factors(kf, n, 0), factors(2 - kf, n, 1));
    let p = create(&s, &a, &b);
    expect(c, true, "deviate", || "unchanged".into(), || verify(&s, &p))?;
    let ge = gens(16);
    let pts = vec![ge.h.clone(), G1::identity(), G1::generator()];
    let which = c.choose("what", 11);
    let k = "deviate";
    let (l, r) = (p.L.as_slice().to_vec(), p.R.as_slice().to_vec());
    match which {
        0 => for (i, x) in [f(0), f(1), p.a.clone() + f(1), p.a.negation(), p.b.clone()].iter().enumerate() {
            let q = InnerProductArgumentProof { a: x.clone(), ..p.clone() };
            expect(c, false, k, || format!("a replaced ({})", i), || verify(&s, &q))?;
            let q = InnerProductArgumentProof { b: if i == 4 { p.a.clone() } else { x.clone() }, ..p.clone() };
            expect(c, false, k, || format!("b replaced ({})", i), || verify(&s, &q))?;
        },
        1 => for (w, x, _) in lists(&l, &[pts.clone(), r.clone()].concat()) {
            if x == l { continue }
            let q = InnerProductArgumentProof { L: gv(&x), ..p.clone() };
            expect(c, false, k, || format!("L: {}", w), || verify(&s, &q))?;
        },
        2 => for (w, x, _) in lists(&r, &[pts.clone(), l.clone()].concat()) {
            if x == r { continue }
            let q = InnerProductArgumentProof { R: gv(&x), ..p.clone() };
            expect(c, false, k, || format!("R: {}", w), || verify(&s, &q))?;
        },
        3 => {
            // both lists alike, so that their lengths agree
            for ((w, x, _), (_, y, _)) in lists(&l, &pts).into_iter().zip(lists(&r, &pts)) {
                if x == l { continue }
                let q = InnerProductArgumentProof { L: gv(&x), R: gv(&y), ..p.clone() };
                expect(c, false, k, || format!("L and R: {}", w), || verify(&s, &q))?;
            }
            if n > 1 {
                let q = InnerProductArgumentProof { L: p.R.clone(), R: p.L.clone(), ..p.clone() };
                expect(c, false, k, || "L and R exchanged".into(), || verify(&s, &q))?;
            }
        }
        4 => for (w, x, same_len) in lists(&s.gf, &[f(0), f(77)]) {
            if x == s.gf { continue }
            let t = Stmt { gf: x, ..s.clone() };
            expect(c, false, if same_len { k } else { "length:G_factors" }, || format!("G factors: {}", w), || verify(&t, &p))?;
        },
        5 => for (w, x, same_len) in lists(&s.hf, &[f(0), f(77)]) {
            if x == s.hf { continue }
            let t = Stmt { hf: x, ..s.clone() };
            expect(c, false, if same_len { k } else { "length:H_factors" }, || format!("H factors: {}", w), || verify(&t, &p))?;
        },
        6 => for (w, x, same_len) in lists(&s.G, &pts) {
            if x == s.G { continue }
            let t = Stmt { G: x, ..s.clone() };
            expect(c, false, if same_len { k } else { "length:G" }, || format!("G: {}", w), || verify(&t, &p))?;
        },
        7 => for (w, x, same_len) in lists(&s.H, &pts) {
            if x == s.H { continue }
            let t = Stmt { H: x, ..s.clone() };
            expect(c, false, if same_len { k } else { "length:H" }, || format!("H: {}", w), || verify(&t, &p))?;
        },
        8 => for (i, x) in [G1::identity(), s.u.clone(), s.P.clone() + s.u.clone(), s.P.negation(), s.P.clone() + s.G[0].clone()].iter().enumerate() {
            let t = Stmt { P: x.clone(), ..s.clone() };
            expect(c, false, k, || format!("P replaced ({})", i), || verify(&t, &p))?;
        },
        9 => for (i, x) in [G1::identity(), s.u.negation(), ge.h.clone(), s.G[0].clone()].iter().enumerate() {
            let t = Stmt { u: x.clone(), ..s.clone() };
            expect(c, false, k, || format!("u replaced ({})", i), || verify(&t, &p))?;
        },
        _ => {
            if n > 1 {
                let t = Stmt { label: b"other", ..s.clone() };
                expect(c, false, k, || "another label".into(), || verify(&t, &p))?;
            }
            for m in [0usize, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 1 << 31, 1 << 32, usize::max_value()].iter() {
                if *m == n { continue }
                let t = Stmt { n: *m, ..s.clone() };
                expect(c, false, "length:n", || format!("{} elements given as {}", n, m), || verify(&t, &p))?;
            }
            // more rounds than any number of elements has
            for l in [31usize, 32, 33, 63, 64, 65, 128, 129].iter() {
                let mut q = p.clone();
                while q.L.len() < *l { q.L.push(ge.h.clone()) }
                while q.R.len() < *l { q.R.push(ge.h.clone()) }
                for m in [n, 0, 1, 1 << 31, 1 << 32, 1 << 63, usize::max_value()].iter() {
                    let t = Stmt { n: *m, ..s.clone() };
                    expect(c, false, "length:rounds", || format!("{} rounds for {} elements given as {}", l, n, m), || verify(&t, &q))?;
                }
            }
        }
    }
    Ok(())
}
/// More elements: the honest argument, and each part of it altered in one way.
fn large(c: &mut Ctx) -> R {
    let n = 1usize << c.pick("log n", &[5usize, 6, 7, 8][..c.q(3, 4)]);
    let (ka, kb) = (c.pick("a", &[0usize, 4]), c.pick("b", &[2usize, 4]));
    let kf = c.pick("factors", &[0usize, 1, 2]);
    c.state(&(n, ka, kb, kf));
    let (a, b) = (scalars(ka, n, 0), scalars(kb, n, 50));
    let s = statement(n, &a, &b, factors(kf, n, 0), factors(kf, n, 1));
    let p = c.no_panic("honest", "create_ipp", || create(&s, &a, &b))?;
    expect(c, true, "honest", || format!("the argument for {} elements", n), || verify(&s, &p))?;
    let ge = gens(16);
    for i in 0..p.L.len() {
        for right in vec![false, true] {
            let mut q = p.clone();
            let v = if right { &mut q.R } else { &mut q.L };
            v[i] = v[i].clone() + ge.h.clone();
            expect(c, false, "large", || format!("{} {} of {} elements altered", if right { "R" } else { "L" }, i, n), || verify(&s, &q))?;
        }
    }
    if ka == 4 && kb == 4 {
        for i in vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1] {
            let mut t = s.clone();
            t.gf[i] = &t.gf[i] + &f(1);
            expect(c, false, "large", || format!("G factor {} of {} altered", i, n), || verify(&t, &p))?;
            let mut t = s.clone();
            t.hf[i] = &t.hf[i] + &f(1);
            expect(c, false, "large", || format!("H factor {} of {} altered", i, n), || verify(&t, &p))?;
            let mut t = s.clone();
            t.G[i] = ge.h.clone();
            expect(c, false, "large", || format!("G {} of {} altered", i, n), || verify(&t, &p))?;
        }
    }
    Ok(())
}
/// Each round's challenge depends on the points of this round and of all before, and on the label.
fn order(c: &mut Ctx) -> R {
    let n = 1usize << c.choose("log n", c.q(5, 6));
    c.state(&n);
    let (a, b) = (scalars(4, n, 0), scalars(4, n, 50));
    let s = statement(n, &a, &b, factors(2, n, 0), factors(2, n, 1));
    let p = c.no_panic("order", "create_ipp", || create(&s, &a, &b))?;
    let drawn = |s: &Stmt, p: &InnerProductArgumentProof| {
        merlin::record();
        let _ = guard(|| verify(s, p));
        merlin::recorded()
    };
    let base = drawn(&s, &p);
    let k = p.L.len();
    c.ensure(base.len() >= k, "order", || format!("{} challenges for {} rounds", base.len(), k))?;
    let first = |x: Vec<Vec<u8>>| (0..base.len()).find(|i| base.get(*i) != x.get(*i));
    let ge = gens(16);
    for i in 0..k {
        for right in vec![false, true] {
            let at = |p: &InnerProductArgumentProof| if right { p.R[i].clone() } else { p.L[i].clone() };
            let x = at(&p);
            for (j, y) in vec![x.negation(), x.clone() + ge.h.clone(), x.clone() + ge.g.clone(), G1::identity()].into_iter().enumerate() {
                let mut q = p.clone();
                if right { q.R[i] = y } else { q.L[i] = y }
                c.step();
                let got = first(drawn(&s, &q));
                let want = base.len() - k + i;
                c.ensure(got.map_or(false, |g| g <= want), "order", || format!("{} {} of {} rounds altered ({}): the first challenge that changes is {:?} instead of {}", if right { "R" } else { "L" }, i, k, j, got, want))?;
            }
        }
    }
    if k > 0 {
        let got = first(drawn(&Stmt { label: b"other", ..s.clone() }, &p));
        c.ensure(got == Some(0), "order", || "another label, the same challenge".into())?;
    }
    Ok(())
}
/// Every scalar of the verification is the product of the challenges and their inverses that its index says.
fn coefficients(c: &mut Ctx) -> R {
    let k = c.choose("log n", c.q(23, 24));
    let n = 1usize << k;
    c.state(&n);
    let pts: Vec<G1> = gens(32).G.as_slice()[..k].to_vec();
    let (l, r) = (gv(&pts), gv(&pts));
    let mut t = Transcript::new(b"scalars");
    let got = c.no_panic("scalars", &format!("verification_scalars for 2^{} elements", k), || IPP::verification_scalars(&l, &r, n, &mut t))?;
    let (sq, inv_sq, s) = match got { Ok(x) => x, Err(_) => return violation("scalars", format!("no scalars for 2^{} elements", k)) };
    c.ensure(sq.len() == k && inv_sq.len() == k && s.len() == n, "scalars:length", || format!("{} {} {} scalars for 2^{}", sq.len(), inv_sq.len(), s.len(), k))?;
    for i in 0..k { c.ensure((&sq[i] * &inv_sq[i]).is_one(), "scalars:inverse", || format!("challenge {} of {}", i, k))? }
    let mut square = s[0].square();
    for x in &sq { square = &square * x }
    c.ensure(square.is_one(), "scalars:first", || format!("the first scalar for 2^{} elements", k))?;
    // the lowest bit of an index belongs to the last challenge
    for i in 1..n {
        let low = i.trailing_zeros() as usize;
        let want = &s[i & (i - 1)] * &sq[k - 1 - low];
        if s[i] != want { return violation("scalars:product", format!("scalar {} for 2^{} elements", i, k)) }
    }
    c.eval(n as u64);
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "the inner product argument for vectors of 1 to 8 (16) elements in all combinations of edge vectors and factors is accepted; every single part of proof and statement replaced, exchanged, dropped or added is refused without a panic".into(),
        assumptions: vec!["generators are derived by hashing; group arithmetic is amcl_wrapper's, outside the repository".into()],
        scenarios: vec![Scenario::new("large", "32 to 128 (256) elements x 4 vectors x 3 factors, each L and R, some factors and generators altered", large), Scenario::new("order", "1 to 16 (32) elements, each L and R altered in 4 ways: the challenges drawn by the verifier compared", order), Scenario::new("honest", "4 (5) lengths x 5 x 5 vectors x 3 x 3 factors", honest), Scenario::new("deviations", "4 (5) lengths x 3 factors x 11 parts of proof and statement, each with every replacement", deviations), Scenario::new("coefficients", "1 to 2^22 (2^23) elements, every scalar", coefficients)],
    }
}
