mod fields;
mod large;
use fields::*;
use mc::{combos, perms, subsets, violation, Check, Ctx, Scenario, Tier, R};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use ursa_sharing::feldman::{FeldmanVerifier, Scheme as Feldman};
use ursa_sharing::pedersen::{PedersenVerifier, Scheme as Pedersen};
use ursa_sharing::shamir::{Scheme, Share};
use ursa_sharing::{Group, ShareVerifier};

fn share(id: u64, v: u64) -> Share {
    Share::new(id as usize, [v as u8])
}

/// The polynomial through the first t shares; every share lies on it, identifiers are 1..=n.
fn poly_of(c: &mut Ctx, shares: &[Share], t: usize, q: u64) -> R<Vec<u64>> {
    let pts: Vec<(u64, u64)> = shares.iter().map(|s| (s.identifier() as u64, s.value().first().cloned().unwrap_or(255) as u64)).collect();
    let ids: std::collections::BTreeSet<u64> = pts.iter().map(|p| p.0).collect();
    c.ensure(
        ids.len() == shares.len() && ids.iter().all(|i| *i >= 1 && *i <= shares.len() as u64) && pts.iter().all(|p| p.1 < q),
        "split:identifiers",
        || format!("identifiers and values {:?} are not 1..=n with field elements", pts),
    )?;
    let poly = interp(&pts[..t], q);
    for (x, y) in &pts {
        c.same(*y, eval(&poly, *x, q), "split:value", "share value against the degree t-1 polynomial through the first t shares")?;
    }
    Ok(poly)
}

// ---------------------------------------------------------------- H01: plain sharing

fn params(c: &mut Ctx) -> R {
    let t = c.choose("t", 7);
    let n = c.choose("n", 8);
    let want = n >= t && t >= 2;
    c.state(&(t, n, want));
    c.outcome(if want { "accepted" } else { "refused" });
    c.same(Scheme::new(t, n).is_ok(), want, "params:shamir", "shamir parameters")?;
    c.same(Feldman::new(t, n).is_ok(), want, "params:feldman", "feldman parameters")?;
    c.same(Pedersen::new(t, n).is_ok(), want, "params:pedersen", "pedersen parameters")
}

/// Every secret, every random coefficient, every subset (in every order up to size 3).
fn split_combine<const Q: u64>(c: &mut Ctx, tmax: usize, nmax: usize) -> R {
    let t = 2 + c.choose("t-2", tmax - 1);
    let n = t + c.choose("n-t", (nmax.min(Q as usize - 1)) + 1 - t);
    let secret = c.choose("secret", Q as usize + 1) as u64; // Q itself: not a field element
    let s = Scheme::new(t, n).unwrap();
    let mut seen = std::collections::BTreeSet::new();
    for coef in tuples(Q, t - 1) {
        let mut rng = Script::new(&coef);
        let r = s.split_secret(&mut rng, &F::<Q>(secret));
        if secret == 0 || secret >= Q {
            c.ensure(r.is_err(), "split:invalid-secret", || format!("secret {} of field {} was split", secret, Q))?;
            c.outcome("invalid secret refused");
            continue;
        }
        let shares = match r {
            Ok(s) => s,
            Err(e) => return violation("split:refused", format!("valid secret {} refused: {:?}", secret, e)),
        };
        c.same(shares.len(), n, "split:count", "number of shares")?;
        let poly = poly_of(c, &shares, t, Q)?;
        c.same(poly[0], secret, "split:intercept", "value at 0 of the polynomial through the first t shares")?;
        seen.insert(poly.clone());
        c.state(&(Q, t, n, &poly));
        for sub in subsets(n) {
            let orders: Vec<Vec<usize>> = if sub.len() <= 3 {
                perms(sub.len())
            } else {
                vec![(0..sub.len()).collect(), (0..sub.len()).rev().collect()]
            };
            for o in orders {
                let pick: Vec<Share> = o.iter().map(|k| shares[sub[*k]].clone()).collect();
                let zero = pick.iter().any(|s| s.value() == [0]);
                let got = s.combine_shares::<F<Q>, F<Q>>(&pick);
                c.eval(1);
                c.step();
                match got {
                    Ok(v) => {
                        if pick.len() < t {
                            return violation("combine:too-few", format!("{} of {} shares were combined", pick.len(), t));
                        }
                        if v.0 != secret {
                            return violation("combine:wrong", format!("Q={} t={} n={} poly={:?} subset={:?}: got {} want {}", Q, t, n, poly, sub, v.0, secret));
                        }
                    }
                    Err(e) => {
                        if pick.len() >= t && !zero {
                            return violation("combine:refused", format!("Q={} t={} n={} poly={:?} subset={:?}: {:?}", Q, t, n, poly, sub, e));
                        }
                    }
                }
            }
        }
        c.outcome("recovered");
    }
    if !seen.is_empty() {
        c.same(seen.len() as u64, Q.pow(t as u32 - 1), "split:polynomials", "number of distinct polynomials over all answers of the random source")?;
    }
    Ok(())
}

/// Arbitrary shares (not from one split): identifiers 0..=Q+1, any values, k of them.
fn arbitrary<const Q: u64>(c: &mut Ctx, kmax: usize) -> R {
    let k = c.choose("k", kmax + 1);
    let t = 2 + c.choose("t-2", 2);
    let s = Scheme::new(t, t + 3).unwrap();
    let ids = tuples(Q, k); // 0..Q-1, with 0 and duplicates included
    for id in ids {
        for val in tuples(Q + 1, k) {
            let sh: Vec<Share> = (0..k).map(|i| share(id[i], val[i])).collect();
            let got = s.combine_shares::<F<Q>, F<Q>>(&sh);
            c.eval(1);
            let dup = (0..k).any(|i| (0..i).any(|j| id[i] == id[j]));
            let bad = k < t || id.contains(&0) || dup || val.contains(&Q);
            let zero = val.contains(&0);
            match got {
                Ok(v) => {
                    if bad {
                        return violation("combine:bad-accepted", format!("t={} ids={:?} values={:?} gave {}", t, id, val, v.0));
                    }
                    let pts: Vec<(u64, u64)> = id.iter().cloned().zip(val.iter().cloned()).collect();
                    let want = lagrange0(&pts, Q);
                    if v.0 != want {
                        return violation("combine:interpolation", format!("t={} points={:?}: got {} want {}", t, pts, v.0, want));
                    }
                }
                Err(_) => {
                    if !bad && !zero {
                        return violation("combine:good-refused", format!("t={} ids={:?} values={:?}", t, id, val));
                    }
                }
            }
        }
        c.step();
        c.state(&(Q, t, &id));
    }
    c.outcome(format!("k={}", k));
    Ok(())
}

/// t-1 shares are independent of the secret: for every set of t-1 holders, the multiset of
/// views over all random draws is uniform (each view exactly once) for every secret.
fn secrecy<const Q: u64>(c: &mut Ctx, tmax: usize) -> R {
    let t = 2 + c.choose("t-2", tmax - 1);
    let n = t + c.choose("n-t", (5usize.min(Q as usize - 1)) + 1 - t);
    let s = Scheme::new(t, n).unwrap();
    for holders in combos(n, t - 1) {
        for secret in 1..Q {
            let mut views: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
            for coef in tuples(Q, t - 1) {
                let shares = match s.split_secret(&mut Script::new(&coef), &F::<Q>(secret)) {
                    Ok(s) => s,
                    Err(e) => return violation("split:refused", format!("{:?}", e)),
                };
                let view: Vec<u8> = holders.iter().map(|h| shares[*h].value()[0]).collect();
                *views.entry(view).or_insert(0) += 1;
                c.eval(1);
            }
            let all = Q.pow(t as u32 - 1);
            c.state(&(Q, t, n, &holders, secret));
            c.ensure(views.len() as u64 == all && views.values().all(|v| *v == 1), "secrecy:distribution", || {
                format!("Q={} t={} n={} holders={:?} secret={}: {} distinct views of {}", Q, t, n, holders, secret, views.len(), all)
            })?;
        }
    }
    c.outcome("uniform");
    Ok(())
}

/// Shares of a group element ("in the exponent") combine to the group element.
fn in_group<const Q: u64, const P: u64>(c: &mut Ctx) -> R {
    let t = 2 + c.choose("t-2", 2);
    let n = t + c.choose("n-t", 2);
    let secret = 1 + c.choose("secret-1", Q as usize - 1) as u64;
    let s = Scheme::new(t, n).unwrap();
    let g = M::<Q, P>::gen();
    for coef in tuples(Q, t - 1) {
        let shares = s.split_secret(&mut Script::new(&coef), &F::<Q>(secret)).map_err(|e| mc::Violation { key: "split:refused".into(), msg: format!("{:?}", e) })?;
        let gs: Vec<Share> = shares.iter().map(|x| share(x.identifier() as u64, pw(g, x.value()[0] as u64, P))).collect();
        for sub in subsets(n) {
            let pick: Vec<Share> = sub.iter().map(|i| gs[*i].clone()).collect();
            let zero = pick.iter().any(|x| x.value() == [1]);
            c.eval(1);
            match s.combine_shares::<F<Q>, M<Q, P>>(&pick) {
                Ok(v) => c.ensure(pick.len() >= t && v.0 == pw(g, secret, P), "combine:group", || format!("t={} coef={:?} sub={:?}", t, coef, sub))?,
                Err(e) => c.ensure(pick.len() < t || zero, "combine:group-refused", || format!("t={} coef={:?} sub={:?} {:?}", t, coef, sub, e))?,
            }
        }
        c.state(&(t, n, secret, &coef));
    }
    c.outcome("recovered in the group");
    Ok(())
}

/// Thresholds 5 and 6: every coefficient vector gives its own polynomial; every subset of t
/// shares gives the secret, no smaller one anything.
fn wide(c: &mut Ctx) -> R {
    const W: u64 = 7;
    let t = 5 + c.choose("t-5", 2);
    let n = t + c.choose("n-t", 7 - t);
    let secret = 1 + c.choose("secret-1", 6) as u64;
    let s = Scheme::new(t, n).unwrap();
    let mut seen = std::collections::BTreeSet::new();
    for coef in tuples(W, t - 1) {
        let shares = match s.split_secret(&mut Script::new(&coef), &F::<W>(secret)) {
            Ok(s) => s,
            Err(e) => return violation("split:refused", format!("{:?}", e)),
        };
        let poly = poly_of(c, &shares, t, W)?;
        c.same(poly[0], secret, "split:intercept", "value at 0")?;
        for k in t - 1..=n {
            for sub in combos(n, k) {
                let pick: Vec<Share> = sub.iter().map(|i| shares[*i].clone()).collect();
                c.eval(1);
                match s.combine_shares::<F<W>, F<W>>(&pick) {
                    Ok(v) => c.ensure(k >= t && v.0 == secret, "combine:wrong", || format!("t={} n={} poly={:?} sub={:?}: {}", t, n, poly, sub, v.0))?,
                    Err(_) => c.ensure(k < t || pick.iter().any(|x| x.value() == [0]), "combine:refused", || format!("t={} n={} poly={:?} sub={:?}", t, n, poly, sub))?,
                }
            }
        }
        seen.insert(poly);
    }
    c.state(&(t, n, secret));
    c.outcome(format!("t={}", t));
    c.same(seen.len() as u64, W.pow(t as u32 - 1), "split:polynomials", "number of distinct polynomials over all answers of the random source")
}

fn h01(tier: Tier) -> Check {
    let th = tier == Tier::Thorough;
    let mut scenarios = vec![
        Scenario::new("parameters", "threshold 0..6 x limit 0..7, three schemes", params),
        Scenario::new("split-combine-q5", "field of order 5, t<=4, n<=4, all secrets, all coefficients, all subsets, all orders up to 3", |c| split_combine::<5>(c, 4, 4)),
        Scenario::new("split-combine-q7", "field of order 7, t<=4, n<=5", |c| split_combine::<7>(c, 4, 5)),
        Scenario::new("arbitrary-q5", "up to 3 arbitrary shares over the field of order 5: all identifiers incl. 0 and duplicates, all values incl. out of range", |c| arbitrary::<5>(c, 3)),
        Scenario::new("secrecy-q5", "field of order 5, t<=4: exact distribution of every (t-1)-view over all random draws", |c| secrecy::<5>(c, 4)),
        Scenario::new("secrecy-q7", "field of order 7, t<=3", |c| secrecy::<7>(c, 3)),
        Scenario::new("group-q5", "shares in the order-5 subgroup mod 11", in_group::<5, 11>),
        Scenario::new("large", "field of about 2^31 elements, t in {2..8,12}, n in {t,t+1,300,66000}, windows of shares around identifiers 128, 256, 512 and 65536, every pair of repeated shares and every position of a bad one", large::shamir),
        Scenario::new("wide-q7", "field of order 7, t in {5,6}, n<=6: every coefficient vector", wide),
        Scenario::new("split-combine-q11", "field of order 11, t<=4, n<=6", |c| split_combine::<11>(c, 4, 6)),
        Scenario::new("arbitrary-q7", "up to 3 arbitrary shares over the field of order 7", |c| arbitrary::<7>(c, 3)),
        Scenario::new("arbitrary4-q5", "up to 4 arbitrary shares over the field of order 5", |c| arbitrary::<5>(c, 4)),
        Scenario::new("secrecy-q11", "field of order 11, t<=4", |c| secrecy::<11>(c, 4)),
        Scenario::new("group-q11", "shares in the order-11 subgroup mod 23", in_group::<11, 23>),
    ];
    if th {
        scenarios.push(Scenario::new("split-combine-q13", "field of order 13, t<=4, n<=7", |c| split_combine::<13>(c, 4, 7)));
        scenarios.push(Scenario::new("secrecy-q13", "field of order 13, t<=4", |c| secrecy::<13>(c, 4)));
        scenarios.push(Scenario::new("arbitrary4-q7", "up to 4 arbitrary shares over the field of order 7", |c| arbitrary::<7>(c, 4)));
    }
    Check {
        rule: "An execution fixes the field, the scheme parameters and the secret; inside it every answer of the random source (all coefficient vectors) and every subset of shares is run through the real scheme and compared with a reference polynomial. A state is one (field, threshold, limit, polynomial).".into(),
        assumptions: vec![
            "The scheme is generic over the field: prime fields of order 5, 7, 11 (13 in the thorough tier) stand for the curves' scalar fields".into(),
            "A share whose value is the field's zero may be refused (the Group trait documents zero as not valid); it must never give a wrong secret".into(),
        ],
        scenarios,
    }
}

// ---------------------------------------------------------------- H02: verifiable sharing

type Fq = F<5>;
type G = M<5, 11>;
const Q: u64 = 5;
const P: u64 = 11;

fn mkf(g: u64, cs: &[u64]) -> FeldmanVerifier<Fq, G> {
    FeldmanVerifier { g: M(g), commitments: cs.iter().map(|x| ShareVerifier::try_from(&[*x as u8][..]).unwrap()).collect() }
}
fn mkp(g: u64, h: u64, cs: &[u64]) -> PedersenVerifier<Fq, G> {
    PedersenVerifier { g: M(g), h: M(h), commitments: cs.iter().map(|x| ShareVerifier::try_from(&[*x as u8][..]).unwrap()).collect() }
}
fn cvals_f(v: &FeldmanVerifier<Fq, G>) -> Vec<u64> {
    v.commitments.iter().map(|c| c.to_bytes()[0] as u64).collect()
}
fn cvals_p(v: &PedersenVerifier<Fq, G>) -> Vec<u64> {
    v.commitments.iter().map(|c| c.to_bytes()[0] as u64).collect()
}
/// prod C_j^(x^j)
fn rhs(cs: &[u64], x: u64) -> u64 {
    let mut r = 1;
    let mut e = 1;
    for c in cs {
        r = r * pw(*c, e, P) % P;
        e = e * (x % Q) % Q;
    }
    r
}

fn feldman_honest(c: &mut Ctx) -> R {
    let t = 2 + c.choose("t-2", 2);
    let n = t + c.choose("n-t", 5 - t);
    let secret = c.choose("secret", Q as usize) as u64;
    let given = c.flag("generator given");
    let s = Feldman::new(t, n).unwrap();
    for coef in tuples(Q, t - 1) {
        for gi in 1..Q {
            let g = pw(G::gen(), gi, P);
            let mut draws = coef.clone();
            draws.push(gi - 1);
            let mut rng = Script::new(&draws);
            let r = s.split_secret::<Fq, G>(&mut rng, &F(secret), if given { Some(M(g)) } else { None });
            if secret == 0 {
                c.ensure(r.is_err(), "split:invalid-secret", || "zero secret split".into())?;
                continue;
            }
            let (ver, shares) = match r {
                Ok(x) => x,
                Err(e) => return violation("feldman:split", format!("{:?}", e)),
            };
            let poly = poly_of(c, &shares, t, Q)?;
            c.same(poly[0], secret, "split:intercept", "secret on the polynomial")?;
            if given {
                c.same(ver.g.0, g, "feldman:generator", "generator")?;
            }
            let g = ver.g.0;
            let want: Vec<u64> = poly.iter().map(|a| pw(g, *a, P)).collect();
            c.same(cvals_f(&ver), want, "feldman:commitments", "commitments")?;
            c.state(&(t, n, &poly, g));
            for sh in &shares {
                let ok = s.verify_share(sh, &ver).is_ok();
                c.ensure(ok || sh.value() == [0], "feldman:honest-refused", || format!("honest share {} of {:?} refused", sh.identifier(), poly))?;
            }
            for id in 0..=(n as u64 + 1) {
                for v in 0..=Q {
                    c.eval(1);
                    let ok = s.verify_share(&share(id, v), &ver).is_ok();
                    let want = v < Q && v == eval(&poly, id % Q, Q);
                    c.ensure(!ok || want, "feldman:wrong-accepted", || format!("poly {:?}: share ({},{}) accepted", poly, id, v))?;
                    c.ensure(ok || !want || v == 0 || id == 0 || id >= Q, "feldman:right-refused", || format!("poly {:?}: share ({},{}) refused", poly, id, v))?;
                }
            }
            for sub in subsets(n) {
                let pick: Vec<Share> = sub.iter().map(|i| shares[*i].clone()).collect();
                let zero = pick.iter().any(|x| x.value() == [0]);
                match s.combine_shares::<Fq, Fq>(&pick) {
                    Ok(v) => c.ensure(pick.len() >= t && v.0 == secret, "feldman:combine", || format!("poly {:?} sub {:?} -> {}", poly, sub, v.0))?,
                    Err(e) => c.ensure(pick.len() < t || zero, "feldman:combine-refused", || format!("poly {:?} sub {:?}: {:?}", poly, sub, e))?,
                }
            }
        }
    }
    c.outcome(format!("t={}", t));
    Ok(())
}

fn pedersen_honest(c: &mut Ctx) -> R {
    let t = 2 + c.choose("t-2", 2);
    let n = t + c.choose("n-t", 2);
    let secret = c.choose("secret", Q as usize) as u64;
    let blinding = c.choose("blinding", Q as usize) as u64;
    let given = c.choose("generators given", 4);
    let (gi, hi) = (1 + c.choose("g", 2) as u64, 2 + c.choose("h", 2) as u64);
    let s = Pedersen::new(t, n).unwrap();
    let g = pw(G::gen(), gi, P);
    let h = pw(G::gen(), hi, P);
    let coefs = tuples(Q, t - 1);
    let mut pairs = std::collections::BTreeSet::new();
    let mut whole = given == 3;
    for (ci, coef) in coefs.iter().enumerate() {
        for (bi, bcoef) in coefs.iter().enumerate() {
            if t == 3 && !c.thorough() && (ci + bi) % 5 != 0 {
                whole = false;
                continue;
            }
            let mut draws = vec![];
            if given & 1 == 0 {
                draws.push(gi - 1);
            }
            if given & 2 == 0 {
                draws.push(hi - 1);
            }
            draws.push(blinding);
            draws.extend(coef);
            draws.extend(bcoef);
            let mut rng = Script::new(&draws);
            let r = s.split_secret::<Fq, G>(
                &mut rng,
                &F(secret),
                if given & 1 == 1 { Some(M(g)) } else { None },
                if given & 2 == 2 { Some(M(h)) } else { None },
            );
            if secret == 0 {
                c.ensure(r.is_err(), "split:invalid-secret", || "zero secret split".into())?;
                continue;
            }
            let res = match r {
                Ok(x) => x,
                // a zero blinding factor may be drawn; the scheme may refuse it
                Err(_) if draws.contains(&0) => {
                    whole = false;
                    continue;
                }
                Err(e) => return violation("pedersen:split", format!("{:?}", e)),
            };
            let poly = poly_of(c, &res.secret_shares, t, Q)?;
            let bpoly = poly_of(c, &res.blinding_shares, t, Q)?;
            c.same((poly[0], bpoly[0]), (secret, res.blinding.0), "pedersen:intercepts", "secret and blinding factor on the polynomials")?;
            if given & 1 == 1 {
                c.same(res.verifier.g.0, g, "pedersen:generators", "given generator g")?;
            }
            if given & 2 == 2 {
                c.same(res.verifier.h.0, h, "pedersen:generators", "given generator h")?;
            }
            let (g, h) = (res.verifier.g.0, res.verifier.h.0);
            let want: Vec<u64> = poly.iter().zip(bpoly.iter()).map(|(a, b)| pw(g, *a, P) * pw(h, *b, P) % P).collect();
            c.same(cvals_p(&res.verifier), want.clone(), "pedersen:commitments", "commitments")?;
            c.state(&(t, n, &poly, &bpoly, g, h));
            pairs.insert((poly.clone(), bpoly.clone()));
            c.ensure(
                res.secret_shares.iter().zip(res.blinding_shares.iter()).all(|(a, b)| a.identifier() == b.identifier()),
                "pedersen:shares",
                || "share and blinding share identifiers differ".into(),
            )?;
            for id in 1..=(n as u64).min(Q - 1) {
                for v in 0..=Q {
                    for w in 0..=Q {
                        c.eval(1);
                        let ok = s.verify_share(&share(id, v), &share(id, w), &res.verifier).is_ok();
                        let want = v < Q && w < Q && pw(g, v, P) * pw(h, w, P) % P == rhs(&want, id);
                        c.ensure(!ok || want, "pedersen:wrong-accepted", || format!("poly {:?}/{:?}: share ({},{},{}) accepted", poly, bpoly, id, v, w))?;
                        c.ensure(ok || !want || v == 0 || w == 0, "pedersen:right-refused", || format!("poly {:?}/{:?}: share ({},{},{}) refused", poly, bpoly, id, v, w))?;
                    }
                }
            }
            for sub in combos(n, t) {
                let pick: Vec<Share> = sub.iter().map(|i| res.secret_shares[*i].clone()).collect();
                let zero = pick.iter().any(|x| x.value() == [0]);
                match s.combine_shares::<Fq, Fq>(&pick) {
                    Ok(v) => c.ensure(v.0 == secret, "pedersen:combine", || format!("poly {:?} sub {:?} -> {}", poly, sub, v.0))?,
                    Err(e) => c.ensure(zero, "pedersen:combine-refused", || format!("{:?}", e))?,
                }
            }
        }
    }
    if whole && secret != 0 {
        c.same(pairs.len() as u64, Q.pow(2 * (t as u32 - 1)), "pedersen:independence", "number of distinct (secret, blinding) polynomial pairs over all answers of the random source")?;
    }
    c.outcome(format!("t={}", t));
    Ok(())
}

/// A dealer publishes any list of commitments whatever: each share is judged by exactly the
/// published equation, and holders whose shares verify all reconstruct the same secret.
fn dealer(c: &mut Ctx) -> R {
    let t = 2 + c.choose("t-2", 2);
    let n = 4;
    let len = c.choose("commitments", t + 2);
    let ped = c.flag("pedersen");
    let els = G::all();
    let g = els[1];
    let h = els[3];
    for idx in tuples(Q, len) {
        let cs: Vec<u64> = idx.iter().map(|i| els[*i as usize]).collect();
        let fv = mkf(g, &cs);
        let pv = mkp(g, h, &cs);
        let fs = Feldman::new(t, n).unwrap();
        let ps = Pedersen::new(t, n).unwrap();
        // per holder: the set of share values that verify
        let mut ok: Vec<Vec<u64>> = vec![];
        for id in 1..=n as u64 {
            let mut good = vec![];
            for v in 0..Q {
                let (acc, eq) = if ped {
                    // the blinding share is fixed by v when the equation holds; try them all
                    let mut acc = false;
                    let mut eq = false;
                    for w in 0..Q {
                        let r = mc::guard(|| ps.verify_share(&share(id, v), &share(id, w), &pv).is_ok());
                        let r = match r {
                            Ok(r) => r,
                            Err(p) => return violation("vss:panic", format!("verify_share with {} commitments panicked: {}", len, p)),
                        };
                        let e = len == t && pw(g, v, P) * pw(h, w, P) % P == rhs(&cs, id);
                        if r && !e {
                            return violation("vss:wrong-accepted", format!("pedersen t={} commitments={:?}: ({},{},{}) accepted", t, cs, id, v, w));
                        }
                        if e && !r && v != 0 && w != 0 {
                            return violation("vss:right-refused", format!("pedersen t={} commitments={:?}: ({},{},{}) refused", t, cs, id, v, w));
                        }
                        acc |= r;
                        eq |= e;
                        c.eval(1);
                    }
                    (acc, eq)
                } else {
                    let r = match mc::guard(|| fs.verify_share(&share(id, v), &fv).is_ok()) {
                        Ok(r) => r,
                        Err(p) => return violation("vss:panic", format!("verify_share with {} commitments panicked: {}", len, p)),
                    };
                    c.eval(1);
                    (r, len == t && pw(g, v, P) == rhs(&cs, id))
                };
                if acc && !eq {
                    return violation("vss:wrong-accepted", format!("feldman t={} commitments={:?}: share ({},{}) accepted", t, cs, id, v));
                }
                if !ped && eq && !acc && v != 0 {
                    return violation("vss:right-refused", format!("feldman t={} commitments={:?}: share ({},{}) refused", t, cs, id, v));
                }
                if acc {
                    good.push(v);
                }
            }
            ok.push(good);
        }
        c.state(&(t, ped, &cs));
        if !ped {
            // every qualified set of verified shares gives one and the same secret
            let mut secrets = std::collections::BTreeSet::new();
            for k in t..=n {
                for sub in combos(n, k) {
                    if sub.iter().all(|i| ok[*i].len() == 1) {
                        let sh: Vec<Share> = sub.iter().map(|i| share(*i as u64 + 1, ok[*i][0])).collect();
                        if let Ok(v) = fs.combine_shares::<Fq, Fq>(&sh) {
                            secrets.insert(v.0);
                        }
                        c.step();
                    }
                }
            }
            c.ensure(secrets.len() <= 1, "vss:inconsistent", || format!("t={} commitments={:?}: verified shares reconstruct {:?}", t, cs, secrets))?;
        }
    }
    c.outcome(format!("ped={} len-t={}", ped, len as i64 - t as i64));
    Ok(())
}

fn h02(tier: Tier) -> Check {
    let _ = tier;
    Check {
        rule: "An execution fixes the scheme parameters and the secret; inside it every answer of the random source, every generator and every candidate share is run through the real scheme over the order-5 field and the order-5 subgroup modulo 11, and each verdict is compared with the published equation computed by a reference. A state is one (polynomial(s), generators) or one list of published commitments.".into(),
        assumptions: vec![
            "The schemes are generic over the group: an order-5 group stands for the curves".into(),
            "Share values equal to zero may be refused (documented as not valid by the trait)".into(),
            "Quick tier: for Pedersen with threshold 3 one fifth of the pairs of coefficient vectors; the thorough tier takes all".into(),
        ],
        scenarios: vec![
            Scenario::new("feldman-honest", "t<=3, n<=5, all secrets, coefficients, generators; every (id,value) judged; all subsets combined", feldman_honest),
            Scenario::new("pedersen-honest", "t<=3, n<=t+1, all secrets, blindings, coefficient vectors; every (id,value,blinding value) judged", pedersen_honest),
            Scenario::new("large", "field of about 2^31 elements, t in {2..8,12}, n in {t,t+1,300,66000}, generators given or drawn; holders around identifiers 256 and 65536; ten wrong shares each", large::vss),
            Scenario::new("dishonest-dealer", "every list of 0..t+1 commitments, t<=3, every holder 1..4, every value: verdict = equation, qualified sets agree", dealer),
        ],
    }
}

// ---------------------------------------------------------------- H03: byte forms

fn share_bytes(c: &mut Ctx) -> R {
    let ids: [u32; 9] = [0, 1, 2, 255, 256, 65535, 65536, 0x8000_0000, 0xffff_ffff];
    let id = c.pick("id", &ids);
    let len = c.choose("len", 35);
    let val: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
    let s = Share::new(id as usize, &val);
    c.state(&(id, len));
    c.same((s.identifier(), s.value().to_vec()), (id, val.clone()), "share:fields", "fields")?;
    let b = c.no_panic("share:to-bytes", "to_bytes", || s.to_bytes())?;
    let mut want = id.to_be_bytes().to_vec();
    want.extend(&val);
    c.same(b.clone(), want, "share:encoding", "big-endian identifier followed by the value")?;
    let back = Share::try_from(&b[..]).map_err(|e| mc::Violation { key: "share:round-trip".into(), msg: format!("{:?}", e) })?;
    c.same((back.identifier(), back.value().to_vec()), (id, val), "share:round-trip", "decoded share")?;
    c.outcome("round trip");
    Ok(())
}
fn share_short(c: &mut Ctx) -> R {
    let len = c.choose("len", 8);
    let b: Vec<u8> = (0..len).map(|i| i as u8 + 1).collect();
    let r = c.no_panic("share:short-panic", "decoding", || Share::try_from(&b[..]).is_ok())?;
    c.state(&len);
    c.outcome(if r { "accepted" } else { "refused" });
    c.same(r, len >= 4, "share:short", "accepts exactly inputs of at least 4 bytes")
}

fn verifier_bytes(c: &mut Ctx) -> R {
    let ped = c.flag("pedersen");
    let len = 1 + c.choose("commitments-1", 4);
    let els = G::all();
    let (g, h) = (els[1 + c.choose("g", 4)], els[c.choose("h", 5)]);
    for idx in tuples(Q, len) {
        let cs: Vec<u64> = idx.iter().map(|i| els[*i as usize]).collect();
        let mut want = vec![g as u8];
        if ped {
            want.push(h as u8);
        }
        want.extend_from_slice(&(len as u32).to_be_bytes());
        want.extend(cs.iter().map(|x| *x as u8));
        let (b, back) = if ped {
            let v = mkp(g, h, &cs);
            let b = v.to_bytes();
            let back = PedersenVerifier::<Fq, G>::try_from(&b[..]).map(|v| (v.g.0, v.h.0, cvals_p(&v)));
            (b, back)
        } else {
            let v = mkf(g, &cs);
            let b = v.to_bytes();
            let back = FeldmanVerifier::<Fq, G>::try_from(&b[..]).map(|v| (v.g.0, h, cvals_f(&v)));
            (b, back)
        };
        c.eval(1);
        c.state(&(ped, g, h, &cs));
        c.same(b, want, "verifier:encoding", "encoding")?;
        match back {
            Ok(x) => c.same(x, (g, h, cs), "verifier:round-trip", "decoded verifier")?,
            Err(e) => return violation("verifier:round-trip", format!("own bytes refused: {:?}", e)),
        }
    }
    c.outcome(format!("ped={} len={}", ped, len));
    Ok(())
}

/// Every truncation, every count field of a small alphabet, every single-byte substitution.
fn verifier_malformed(c: &mut Ctx) -> R {
    let ped = c.flag("pedersen");
    let len = 1 + c.choose("commitments-1", 3);
    let els = G::all();
    let cs: Vec<u64> = (0..len).map(|i| els[i + 1]).collect();
    let b = if ped { mkp(els[1], els[2], &cs).to_bytes() } else { mkf(els[1], &cs).to_bytes() };
    let head = if ped { 2 } else { 1 };
    let dec = |b: &[u8]| -> Result<Option<usize>, String> {
        mc::guard(|| {
            if ped {
                PedersenVerifier::<Fq, G>::try_from(b).ok().map(|v| v.commitments.len())
            } else {
                FeldmanVerifier::<Fq, G>::try_from(b).ok().map(|v| v.commitments.len())
            }
        })
    };
    let what = c.choose("fault", 3);
    let cases: Vec<(String, Vec<u8>, bool)> = match what {
        0 => (0..b.len()).map(|k| (format!("truncated to {}", k), b[..k].to_vec(), true)).collect(),
        1 => {
            let counts: [u32; 12] = [0, 1, 2, 3, 4, 5, 255, 256, 65536, 0x00ff_ffff, 0x7fff_ffff, 0xffff_ffff];
            counts
                .iter()
                .map(|n| {
                    let mut x = b.clone();
                    x[head..head + 4].copy_from_slice(&n.to_be_bytes());
                    (format!("count {}", n), x, *n as usize > len)
                })
                .collect()
        }
        _ => {
            let mut v = vec![];
            for k in 0..b.len() {
                for y in 0..=255u8 {
                    let mut x = b.clone();
                    x[k] = y;
                    let bad = (k < head || k >= head + 4) && (y as u64 >= P || pw(y as u64, Q, P) != 1);
                    v.push((format!("byte {} = {}", k, y), x, bad));
                }
            }
            v
        }
    };
    for (name, x, must_fail) in cases {
        c.eval(1);
        match dec(&x) {
            Err(p) => return violation("verifier:decode-panic", format!("ped={} {}: {}", ped, name, p)),
            Ok(Some(_)) if must_fail => return violation("verifier:decode-accepted", format!("ped={} {} accepted", ped, name)),
            Ok(r) => c.outcome(if r.is_some() { "accepted" } else { "refused" }),
        }
        c.step();
        c.state(&(ped, x));
    }
    Ok(())
}

fn h03(_: Tier) -> Check {
    Check {
        rule: "Every value of the stated alphabet is encoded and decoded by the real code and compared with a reference encoding; every listed corruption is decoded. A state is one encoded value.".into(),
        assumptions: vec!["Element encodings belong to the group implementation (the harness's), the framing to the library".into()],
        scenarios: vec![
            Scenario::new("share-bytes", "9 identifiers x value lengths 0..34", share_bytes),
            Scenario::new("share-short", "inputs of 0..7 bytes", share_short),
            Scenario::new("verifier-bytes", "both verifiers, all generators, every list of 1..4 commitments over the order-5 group", verifier_bytes),
            Scenario::new("verifier-malformed", "every truncation; 12 count fields; every single-byte substitution", verifier_malformed),
        ],
    }
}

fn main() {
    let _ = <Fq as Group>::zero();
    mc::main(&[("H01", h01), ("H02", h02), ("H03", h03)])
}
