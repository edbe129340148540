//! A reference prover for the primary part of a presentation, written from the protocol
//! description and not from the library's prover, with switches for dishonest behaviour.
use crate::world::*;
use mc::*;
use std::collections::BTreeMap;
use ursa::bn::BigNumber as B;
use ursa::cl::*;
use ursa::pair::{GroupOrderElement as F, Pair, PointG1, PointG2};

pub fn b(n: usize) -> B {
    B::from_u32(n).unwrap()
}
pub fn neg(x: &B) -> B {
    b(0).sub(x).unwrap()
}
pub fn pow2(k: usize) -> B {
    b(2).exp(&b(k), None).unwrap()
}
pub fn mul(x: &B, y: &B) -> B {
    x.mul(y, None).unwrap()
}
pub fn add(x: &B, y: &B) -> B {
    x.add(y).unwrap()
}
pub fn sub(x: &B, y: &B) -> B {
    x.sub(y).unwrap()
}
pub fn jb(v: &Value) -> B {
    bn(v.as_str().expect("number"))
}
pub fn dec(x: &B) -> Value {
    json!(x.to_dec().unwrap())
}
pub fn rnd(bits: usize) -> B {
    B::rand(bits).unwrap()
}
pub fn clone_b(x: &B) -> B {
    x.try_clone().unwrap()
}

pub struct Pk {
    pub n: B,
    pub s: B,
    pub z: B,
    pub rctxt: B,
    pub r: BTreeMap<String, B>,
}
impl Pk {
    pub fn of(pk: &CredentialPublicKey) -> Pk {
        let v = jval(&pk.get_primary_key().unwrap());
        Pk {
            n: jb(&v["n"]),
            s: jb(&v["s"]),
            z: jb(&v["z"]),
            rctxt: jb(&v["rctxt"]),
            r: v["r"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), jb(x))).collect(),
        }
    }
    pub fn inv(&self, x: &B) -> B {
        x.inverse(&self.n, None).unwrap()
    }
    pub fn pw(&self, x: &B, e: &B) -> B {
        if e.is_negative() {
            self.inv(&x.mod_exp(&neg(e), &self.n, None).unwrap())
        } else {
            x.mod_exp(e, &self.n, None).unwrap()
        }
    }
    pub fn mm(&self, x: &B, y: &B) -> B {
        x.mod_mul(y, &self.n, None).unwrap()
    }
    pub fn com(&self, x: &B, r: &B) -> B {
        self.mm(&self.pw(&self.z, x), &self.pw(&self.s, r))
    }
}

/// What a dishonest prover does differently.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lie {
    None,
    /// no credential at all: the response for e cancels the known part
    HugeE,
    /// the predicate is proven for another value than the credential's
    UnlinkedPredicate,
    /// as above, and the linked response is left out of the equality proof's map
    OtherValueLinked,
    /// a commitment of the predicate chosen after the challenge
    LateCommitment,
    /// the challenge list contains something else than the elements
    OtherList,
    /// a revealed attribute with another value than the signed one
    RevealOther,
    /// an attribute nobody asked for is shown too, with another value than the signed one: its response makes up for
    /// the difference
    RevealMore,
    /// the same for an attribute that is always hidden
    RevealSecret,
    /// the credential's value, although the predicate does not hold, as four squares of -delta
    NegatedDelta,
    /// four squares of another delta than committed
    OtherSquares,
    /// sub-proof for a credential of another issuer
    OtherIssuer,
    /// the proof of the other inequality direction under the requested predicate
    OtherDirection,
    /// a predicate about a revealed attribute, proven for another value than the revealed one
    RevealedPredicate,
    /// a true proof whose response for e has this many bits, or is negative
    LongE(usize),
    NegativeE,
    /// element zero
    ZeroA,
    ZeroT,
}

/// Three squares summing to n (n large), by search for a prime n - x^2 = 1 mod 4.
fn three_squares(n: &B) -> Option<[B; 3]> {
    let four = b(4);
    for k in 0..20000usize {
        let x = b(k);
        let p = sub(n, &mul(&x, &x));
        if p.is_negative() {
            return None;
        }
        if p.modulus(&four, None).unwrap() != b(1) || !p.is_prime(None).unwrap() {
            continue;
        }
        // sqrt(-1) mod p
        let e = sub(&p, &b(1)).div(&four, None).unwrap();
        let mut root = None;
        for g in 2..60usize {
            let s = b(g).mod_exp(&e, &p, None).unwrap();
            if mul(&s, &s).modulus(&p, None).unwrap() == sub(&p, &b(1)) {
                root = Some(s);
                break;
            }
        }
        let mut y = root?;
        let mut m = clone_b(&p);
        // Euclid until below sqrt(p)
        while mul(&y, &y) > p {
            let r = m.modulus(&y, None).unwrap();
            m = y;
            y = r;
        }
        let z = m.modulus(&y, None).unwrap();
        if add(&mul(&y, &y), &mul(&z, &z)) == p {
            return Some([x, y, z]);
        }
    }
    None
}
pub fn four_squares_small(d: u64) -> [B; 4] {
    for w in (0..=((d as f64).sqrt() as u64)).rev() {
        let r = d - w * w;
        for x in (0..=((r as f64).sqrt() as u64)).rev() {
            let r2 = r - x * x;
            for y in (0..=((r2 as f64).sqrt() as u64)).rev() {
                let r3 = r2 - y * y;
                let z = (r3 as f64).sqrt() as u64;
                for z in z.saturating_sub(1)..=z + 1 {
                    if z * z == r3 {
                        return [b(w as usize), b(x as usize), b(y as usize), b(z as usize)];
                    }
                }
            }
        }
    }
    unreachable!()
}

/// A value for which the predicate holds.
pub fn satisfying(ty: &str, thr: i32) -> i64 {
    match ty {
        "GE" | "GT" => thr as i64 + 3,
        _ => thr as i64 - 3,
    }
}

/// One sub-proof to make.
pub struct Sub<'a> {
    pub iss: &'a Iss,
    /// the credential, or none
    pub sig: Option<&'a CredentialSignature>,
    /// the values of the credential
    pub vals: &'a Vals,
    pub req: Req,
    pub lie: Lie,
    /// the predicate (in the order of the proof) the lie is about; the others are proven honestly
    pub at: Option<usize>,
    /// values claimed for revealed attributes
    pub claim: BTreeMap<&'static str, String>,
}

struct NeSt {
    attr: String,
    ty: String,
    thr: i32,
    u: [B; 4],
    r: [B; 4],
    rd: B,
    ut: [B; 4],
    rt: [B; 4],
    rdt: B,
    alphat: B,
    t: [B; 4],
    td: B,
    mt: B,
    m: B,
    delta: B,
    late: bool,
    unlinked: bool,
}

/// What a dishonest prover does differently in the part about revocation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NrLie {
    None,
    /// the response is for another number (of NAMES) than the commitments
    Secret(usize),
    /// the commitment (of POINTS) is to something else, or is the neutral element
    Element(usize),
    Neutral(usize),
    /// the tau value is another element than its equation gives
    Tau(usize),
}
pub const NAMES: [&str; 14] = ["rho", "o", "c", "o_prime", "m", "m_prime", "t", "t_prime", "m2", "s", "r", "r_prime", "r_prime_prime", "r_prime_prime_prime"];
pub const POINTS: [&str; 7] = ["e", "d", "a", "g", "w", "s", "u"];
/// The part about revocation: the credential's numbers, the accumulator and the witness.
pub struct Nr<'a> {
    pub pk: &'a CredentialPublicKey,
    pub sig: &'a CredentialSignature,
    pub reg: &'a RevocationRegistry,
    pub wit: &'a Witness,
    pub lie: NrLie,
}
struct NrSt {
    points: serde_json::Map<String, Value>,
    secrets: Vec<F>,
    blinds: Vec<F>,
}
/// The equations of the protocol: E = h^rho h~^o; 1 = E^c h^-m h~^-t; sigma's equation in A; the
/// accumulator's in G and W; D = g^r h~^o'; 1 = D^r'' g^-m' h~^-t'; the signature of G_i in G and S; its power in U.
fn nonrevoc(n: &Nr, taus: &mut Vec<Vec<u8>>, clist: &mut Vec<Vec<u8>>) -> NrSt {
    let (k, cr) = (jval(n.pk), jval(n.sig));
    let (k, cr) = (&k["r_key"], &cr["r_credential"]);
    let g1 = |v: &Value| -> PointG1 { unj(v).expect("G1") };
    let g2 = |v: &Value| -> PointG2 { unj(v).expect("G2") };
    let (g, h, h1, h2, ht, pk) = (g1(&k["g"]), g1(&k["h"]), g1(&k["h1"]), g1(&k["h2"]), g1(&k["htilde"]), g1(&k["pk"]));
    let (hc, u, y) = (g2(&k["h_cap"]), g2(&k["u"]), g2(&k["y"]));
    let acc = g2(&jval(n.reg)["accum"]);
    let omega = g2(&jval(n.wit)["omega"]);
    let rnd = || F::new().unwrap();
    let (rho, r, r1, r2, r3, o, o1) = (rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), rnd());
    let f = |v: &Value| -> F { unj(v).expect("field") };
    let (c, s, m2) = (f(&cr["c"]), f(&cr["vr_prime_prime"]), f(&cr["m2"]));
    let x = |a: &F, b: &F| a.mul_mod(b).unwrap();
    let secrets = vec![rho, o, c, o1, x(&rho, &c), x(&r, &r2), x(&o, &c), x(&o1, &r2), m2, s, r, r1, r2, r3];
    let add = |a: &PointG1, b: &PointG1| a.add(b).unwrap();
    let mul = |a: &PointG1, b: &F| a.mul(b).unwrap();
    let e = add(&mul(&h, &rho), &mul(&ht, &o));
    let d = add(&mul(&g, &r), &mul(&ht, &o1));
    let a = add(&g1(&cr["sigma"]), &mul(&ht, &rho));
    let gg = add(&g1(&cr["g_i"]), &mul(&ht, &r));
    let w = omega.add(&hc.mul(&r1).unwrap()).unwrap();
    let ws = &cr["witness_signature"];
    let ss = g2(&ws["sigma_i"]).add(&hc.mul(&r2).unwrap()).unwrap();
    let uu = g2(&ws["u_i"]).add(&hc.mul(&r3).unwrap()).unwrap();
    let (mut p1, mut p2) = ([e, d, a, gg], [w, ss, uu]);
    match n.lie {
        NrLie::Element(i) if i < 4 => p1[i] = PointG1::new().unwrap(),
        NrLie::Element(i) => p2[i - 4] = PointG2::new().unwrap(),
        NrLie::Neutral(i) if i < 4 => p1[i] = PointG1::new_inf().unwrap(),
        NrLie::Neutral(i) => p2[i - 4] = PointG2::new_inf().unwrap(),
        _ => (),
    }
    let ([e, d, a, gg], [_, ss, _]) = (&p1, &p2);
    let blinds: Vec<F> = (0..14).map(|_| rnd()).collect();
    let b = |name: &str| blinds[NAMES.iter().position(|x| *x == name).unwrap()];
    let neg = |x: F| x.mod_neg().unwrap();
    let e2 = |p: &PointG1, q: &PointG2, x: F| Pair::pair(p, q).unwrap().pow(&x).unwrap();
    let prod = |l: Vec<Pair>| l[1..].iter().fold(l[0].clone(), |a, b| a.mul(b).unwrap());
    let sum = |l: Vec<PointG1>| l[1..].iter().fold(l[0], |a, b| a.add(b).unwrap());
    let t1 = sum(vec![mul(&h, &b("rho")), mul(&ht, &b("o"))]);
    let t2 = sum(vec![mul(e, &b("c")), mul(&h, &neg(b("m"))), mul(&ht, &neg(b("t")))]);
    let t3 = prod(vec![e2(a, &hc, b("c")), e2(&ht, &hc, b("r")), e2(&ht, &y, neg(b("rho"))), e2(&ht, &hc, neg(b("m"))), e2(&h1, &hc, neg(b("m2"))), e2(&h2, &hc, neg(b("s")))]);
    let t4 = prod(vec![e2(&ht, &acc, b("r")), e2(&g, &hc, neg(b("r_prime")))]);
    let t5 = sum(vec![mul(&g, &b("r")), mul(&ht, &b("o_prime"))]);
    let t6 = sum(vec![mul(d, &b("r_prime_prime")), mul(&g, &neg(b("m_prime"))), mul(&ht, &neg(b("t_prime")))]);
    let t7 = prod(vec![e2(&add(&pk, gg), &hc, b("r_prime_prime")), e2(&ht, &hc, neg(b("m_prime"))), e2(&ht, ss, b("r"))]);
    let t8 = prod(vec![e2(&ht, &u, b("r")), e2(&g, &hc, neg(b("r_prime_prime_prime")))]);
    let mut t: Vec<Vec<u8>> = vec![t1.to_bytes(), t2.to_bytes(), t3.to_bytes(), t4.to_bytes(), t5.to_bytes(), t6.to_bytes(), t7.to_bytes(), t8.to_bytes()].into_iter().map(|x| x.unwrap()).collect();
    if let NrLie::Tau(i) = n.lie {
        t[i] = if [2usize, 3, 6, 7].contains(&i) { Pair::pair(&g, &hc).unwrap().to_bytes().unwrap() } else { g.to_bytes().unwrap() };
    }
    taus.extend(t);
    let mut points = serde_json::Map::new();
    for (i, q) in p1.iter().enumerate() {
        clist.push(q.to_bytes().unwrap());
        points.insert(POINTS[i].into(), jval(q));
    }
    for (i, q) in p2.iter().enumerate() {
        clist.push(q.to_bytes().unwrap());
        points.insert(POINTS[i + 4].into(), jval(q));
    }
    NrSt { points, secrets, blinds }
}
fn nonrevoc_response(n: &Nr, st: &NrSt, c: &B) -> Value {
    let c = F::from_bytes(&c.to_bytes().unwrap()).unwrap();
    let mut x = serde_json::Map::new();
    for i in 0..14 {
        let mut s = st.secrets[i];
        if n.lie == NrLie::Secret(i) {
            s = s.add_mod(&F::from_bytes(&[1]).unwrap()).unwrap();
        }
        x.insert(NAMES[i].into(), jval(&st.blinds[i].sub_mod(&c.mul_mod(&s).unwrap()).unwrap()));
    }
    json!({"x_list": x, "c_list": st.points})
}

/// Builds the JSON of a proof over the given sub-proofs.  Returns none where the strategy
/// does not apply.
pub fn forge(subs: &[Sub], common: &[&str], nonce: &Nonce) -> Option<Value> {
    forge_with(subs, &[], common, nonce)
}
/// The same with a part about revocation for each sub-proof that has one.
pub fn forge_with(subs: &[Sub], nrs: &[Option<Nr>], common: &[&str], nonce: &Nonce) -> Option<Value> {
    let mut taus: Vec<Vec<u8>> = vec![];
    let mut clist: Vec<Vec<u8>> = vec![];
    let mut shared: BTreeMap<String, B> = BTreeMap::new();
    for a in common {
        shared.insert(a.to_string(), rnd(592));
    }
    struct St {
        a_prime: B,
        et: B,
        vt: B,
        mt: BTreeMap<String, B>,
        m2t: B,
        e: B,
        v: B,
        m2: B,
        nes: Vec<NeSt>,
    }
    let mut sts: Vec<St> = vec![];
    let mut nrsts: Vec<Option<NrSt>> = vec![];
    for (k, s) in subs.iter().enumerate() {
        nrsts.push(nrs.get(k).and_then(|n| n.as_ref()).map(|n| nonrevoc(n, &mut taus, &mut clist)));
        let pk = Pk::of(&s.iss.pk);
        let hidden: Vec<String> =
            s.iss.attrs.iter().chain(s.iss.hidden.iter()).filter(|a| !s.req.revealed.contains(*a)).map(|a| a.to_string()).collect();
        let mut mt = BTreeMap::new();
        for a in &hidden {
            mt.insert(a.clone(), shared.get(a).map(clone_b).unwrap_or_else(|| rnd(592)));
        }
        let (et, vt, m2t) = (rnd(456), rnd(3060), rnd(592));
        let et = match s.lie {
            Lie::LongE(k) => add(&pow2(k - 1), &rnd(380)),
            Lie::NegativeE => neg(&add(&pow2(440), &rnd(380))),
            _ => et,
        };
        let (a_prime, e, v, m2);
        if s.lie == Lie::HugeE {
            // A' = Z * prod R_revealed^-m: then A'^(2^596 c + e) = (A')^c for e = c (1 - 2^596)
            let mut z = clone_b(&pk.z);
            for a in &s.req.revealed {
                z = pk.mm(&z, &pk.inv(&pk.pw(&pk.r[*a], &bn(&s.claim[a]))));
            }
            // and the values claimed for hidden attributes with a predicate
            for (attr, ty, thr) in &s.req.preds {
                z = pk.mm(&z, &pk.inv(&pk.pw(&pk.r[*attr], &bn(&satisfying(ty, *thr).to_string()))));
            }
            a_prime = z;
            e = b(0);
            v = b(0);
            m2 = b(0);
        } else {
            let sig = jval(s.sig?);
            let pc = &sig["p_credential"];
            let (aa, ee, vv) = (jb(&pc["a"]), jb(&pc["e"]), jb(&pc["v"]));
            let r = rnd(2128);
            a_prime = if s.lie == Lie::ZeroA { b(0) } else { pk.mm(&aa, &pk.pw(&pk.s, &r)) };
            e = sub(&ee, &pow2(596));
            v = sub(&vv, &mul(&ee, &r));
            m2 = jb(&pc["m_2"]);
        }
        let et_used = if s.lie == Lie::HugeE { b(0) } else { clone_b(&et) };
        let mut t = if s.lie == Lie::ZeroA { b(0) } else { pk.pw(&a_prime, &et_used) };
        t = pk.mm(&t, &pk.pw(&pk.s, &vt));
        for a in &hidden {
            t = pk.mm(&t, &pk.pw(&pk.r[a], &mt[a]));
        }
        t = pk.mm(&t, &pk.pw(&pk.rctxt, &m2t));
        taus.push(t.to_bytes().unwrap());
        clist.push(a_prime.to_bytes().unwrap());
        let mut nes = vec![];
        let mut preds = s.req.preds.clone();
        preds.sort();
        for (at, (attr, ty, thr)) in preds.iter().enumerate() {
            let lie = if s.at.map_or(true, |k| k == at) { s.lie } else { Lie::None };
            let less = *ty == "LE" || *ty == "LT";
            let bound: i64 = match *ty {
                "GE" | "LE" => *thr as i64,
                "GT" => *thr as i64 + 1,
                _ => *thr as i64 - 1,
            };
            let own = s.vals.iter().find(|x| x.0 == *attr).map(|x| x.2.parse::<i64>().unwrap()).unwrap_or(0);
            // the value the predicate is proven for
            let val = match lie {
                Lie::UnlinkedPredicate | Lie::OtherValueLinked | Lie::HugeE | Lie::RevealedPredicate => satisfying(ty, *thr),
                _ => own,
            };
            let delta = if less { bound - val } else { val - bound };
            let delta = if lie == Lie::OtherDirection { -delta } else { delta };
            let u = match lie {
                Lie::NegatedDelta => four_squares_small(delta.unsigned_abs()),
                Lie::OtherSquares => four_squares_small((delta.unsigned_abs()) + 5),
                Lie::LateCommitment => [b(0), b(0), b(0), b(0)],
                _ if delta >= 0 => four_squares_small(delta as u64),
                _ => return None,
            };
            let rr = || [rnd(2128), rnd(2128), rnd(2128), rnd(2128)];
            let r = rr();
            let rd = rnd(2128);
            let late = lie == Lie::LateCommitment;
            let ut = if late { [pow2(620), b(0), b(0), b(0)] } else { [rnd(592), rnd(592), rnd(592), rnd(592)] };
            let rt = [rnd(672), rnd(672), rnd(672), rnd(672)];
            let rdt = rnd(672);
            let alphat = rnd(2787);
            let zero = lie == Lie::ZeroT;
            let mut tt: Vec<B> = (0..4).map(|i| if zero && i == 0 { b(0) } else { pk.com(&u[i], &r[i]) }).collect();
            let dz = bn(&delta.to_string());
            let td = pk.com(&dz, &rd);
            let t4: [B; 4] = [tt.remove(0), tt.remove(0), tt.remove(0), tt.remove(0)];
            let mj = match lie {
                Lie::UnlinkedPredicate | Lie::RevealedPredicate => rnd(592),
                _ => clone_b(mt.get(*attr)?),
            };
            // commitments of the predicate proof
            for i in 0..4 {
                taus.push(if zero && i == 0 { vec![] } else { pk.com(&ut[i], &rt[i]).to_bytes().unwrap() });
            }
            taus.push(pk.com(&mj, &if less { neg(&rdt) } else { clone_b(&rdt) }).to_bytes().unwrap());
            let q = if late {
                pk.pw(&pk.s, &alphat)
            } else {
                let mut q = pk.pw(&pk.s, &alphat);
                for i in 0..4 {
                    q = pk.mm(&q, &pk.pw(&t4[i], &ut[i]));
                }
                q
            };
            taus.push(q.to_bytes().unwrap());
            for i in 0..4 {
                clist.push(if late { b(7 + i).to_bytes().unwrap() } else { t4[i].to_bytes().unwrap() });
            }
            clist.push(td.to_bytes().unwrap());
            nes.push(NeSt {
                attr: attr.to_string(),
                ty: ty.to_string(),
                thr: *thr,
                u,
                r,
                rd,
                ut,
                rt,
                rdt,
                alphat,
                t: t4,
                td,
                mt: mj,
                m: bn(&val.to_string()),
                delta: dz,
                late,
                unlinked: lie == Lie::UnlinkedPredicate,
            });
        }
        if s.lie == Lie::OtherList {
            let l = clist.len();
            clist[l - 1] = b(4711).to_bytes().unwrap();
        }
        sts.push(St { a_prime, et, vt, mt, m2t, e, v, m2, nes });
    }
    let mut all = taus.clone();
    all.extend(clist.iter().cloned());
    all.push(jb(&jval(nonce)).to_bytes().unwrap());
    let c = B::from_bytes(&B::hash_array(&all).unwrap()).unwrap();
    let resp = |t: &B, x: &B| add(t, &mul(&c, x));
    let mut proofs = vec![];
    for (k, (s, st)) in subs.iter().zip(sts).enumerate() {
        let huge = s.lie == Lie::HugeE;
        let more: Option<String> = match s.lie {
            Lie::RevealMore => Some(s.iss.attrs.iter().find(|a| !s.req.revealed.contains(*a) && !s.req.preds.iter().any(|p| p.0 == **a))?.to_string()),
            Lie::RevealSecret => Some(s.iss.hidden.first()?.to_string()),
            _ => None,
        };
        let mut m = serde_json::Map::new();
        for (a, t) in &st.mt {
            let own = s.vals.iter().find(|x| x.0 == a).map(|x| bn(&x.2)).unwrap_or_else(|| b(0));
            let val = if s.lie == Lie::OtherValueLinked {
                st.nes.iter().find(|n| n.attr == *a).map(|n| clone_b(&n.m)).unwrap_or(own)
            } else if huge {
                st.nes.iter().find(|n| n.attr == *a).map(|n| clone_b(&n.m)).unwrap_or_else(|| b(0))
            } else if more.as_ref() == Some(a) {
                sub(&own, &b(99))
            } else {
                own
            };
            m.insert(a.clone(), dec(&if huge && !st.nes.iter().any(|n| n.attr == *a) { clone_b(t) } else { resp(t, &val) }));
        }
        if s.lie == Lie::RevealedPredicate {
            for n in &st.nes {
                if !m.contains_key(&n.attr) {
                    m.insert(n.attr.clone(), dec(&resp(&n.mt, &n.m)));
                }
            }
        }
        let (e, v, m2) = if huge {
            // responses for hidden attributes with a claimed value are paid for through A'
            (mul(&c, &sub(&b(1), &pow2(596))), clone_b(&st.vt), clone_b(&st.m2t))
        } else {
            (resp(&st.et, &st.e), resp(&st.vt, &st.v), resp(&st.m2t, &st.m2))
        };
        let mut revealed: serde_json::Map<String, Value> = s
            .req
            .revealed
            .iter()
            .map(|a| {
                let own = s.vals.iter().find(|x| x.0 == *a).map(|x| x.2.clone()).unwrap_or_default();
                (a.to_string(), json!(s.claim.get(a).cloned().unwrap_or(own)))
            })
            .collect();
        if let Some(a) = more {
            revealed.insert(a, json!("99"));
        }
        let mut ges = vec![];
        for n in st.nes {
            let pk = Pk::of(&s.iss.pk);
            let mut u = vec![];
            let mut r = vec![];
            let mut t = vec![];
            let alpha;
            if n.late {
                // k0 = -c, k1..k3 with c^2 + k1^2 + k2^2 + k3^2 - delta = 2^620
                let target = add(&sub(&pow2(620), &mul(&c, &c)), &n.delta);
                let ks = three_squares(&target)?;
                let k = [neg(&c), clone_b(&ks[0]), clone_b(&ks[1]), clone_b(&ks[2])];
                let mut al = add(&n.alphat, &mul(&c, &n.rd));
                for i in 0..4 {
                    let ui = add(&n.ut[i], &mul(&c, &k[i]));
                    let rho = rnd(600);
                    t.push(pk.com(&k[i], &rho));
                    r.push(add(&n.rt[i], &mul(&c, &rho)));
                    al = sub(&al, &mul(&rho, &ui));
                    u.push(ui);
                }
                alpha = al;
            } else {
                let mut prod = b(0);
                for i in 0..4 {
                    u.push(resp(&n.ut[i], &n.u[i]));
                    r.push(resp(&n.rt[i], &n.r[i]));
                    t.push(clone_b(&n.t[i]));
                    prod = add(&prod, &mul(&n.u[i], &n.r[i]));
                }
                alpha = resp(&n.alphat, &sub(&n.rd, &prod));
            }
            let idx = |l: &Vec<B>, d: Option<&B>| {
                let mut o = serde_json::Map::new();
                for (i, x) in l.iter().enumerate() {
                    o.insert(i.to_string(), dec(x));
                }
                if let Some(d) = d {
                    o.insert("DELTA".into(), dec(d));
                }
                Value::Object(o)
            };
            let rdelta = resp(&n.rdt, &n.rd);
            let mj = if n.unlinked { dec(&resp(&n.mt, &n.m)) } else { m[&n.attr].clone() };
            ges.push(json!({
                "u": idx(&u, None), "r": idx(&r, Some(&rdelta)), "mj": mj, "alpha": dec(&alpha), "t": idx(&t, Some(&n.td)),
                "predicate": {"attr_name": n.attr, "p_type": n.ty, "value": n.thr},
            }));
        }
        proofs.push(json!({
            "primary_proof": {
                "eq_proof": {"revealed_attrs": revealed, "a_prime": dec(&st.a_prime), "e": dec(&e), "v": dec(&v), "m": m, "m2": dec(&m2)},
                "ge_proofs": ges,
            },
            "non_revoc_proof": nrsts[k].as_ref().map(|st| nonrevoc_response(nrs[k].as_ref().unwrap(), st, &c)),
        }));
    }
    Some(json!({"proofs": proofs, "aggregated_proof": {"c_hash": dec(&c), "c_list": clist}}))
}
