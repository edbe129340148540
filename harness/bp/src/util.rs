//! Shared pieces: small field elements, generators, and a constraint system that only evaluates.
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, RandomizedConstraintSystem, Variable};
use bulletproofs_amcl::utils::get_generators;
use mc::*;
use std::sync::Arc;

pub type F = FieldElement;
pub type V<T> = Result<T, Violation>;
pub fn f(n: i64) -> F { if n < 0 { F::from(n.unsigned_abs()).negation() } else { F::from(n as u64) } }
/// The integers -9..=99 by name, everything else in hexadecimal.
pub fn name(x: &F) -> String {
    let mut y = x.clone();
    y.normalize();
    for i in -9..100 { if f(i) == y { return i.to_string() } }
    y.to_hex()
}
pub struct Gens { pub g: G1, pub h: G1, pub G: G1Vector, pub H: G1Vector }
/// Generators for circuits of up to `n` multipliers.
pub fn gens(n: usize) -> Arc<Gens> {
    static C: Memo<usize, Gens> = Memo::new();
    C.of(&n, || Gens {
        g: G1::from_msg_hash(b"g"), h: G1::from_msg_hash(b"h"),
        G: get_generators("G", n).into(), H: get_generators("H", n).into(),
    })
}
/// A verdict of the library: an error counts as a refusal, a panic is a violation.
pub fn verdict<T, E>(c: &mut Ctx, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<T, E>) -> V<Option<T>> {
    c.step();
    match guard(f) {
        Ok(Ok(x)) => Ok(Some(x)),
        Ok(Err(_)) => Ok(None),
        Err(p) => violation(format!("{}:panic", key), format!("{}: panic: {}", what(), p)),
    }
}
pub fn expect<T, E>(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<T, E>) -> R {
    let b = verdict(c, key, &what, f)?.is_some();
    c.ensure(b == want, key, || format!("{}: {}", what(), if b { "accepted" } else { "refused" }))
}
/// A constraint system that holds a complete assignment, says whether it satisfies the constraints, and lets the
/// explorer choose the values a prover would be free to choose.
pub struct Model<'c> {
    pub ctx: Option<&'c mut Ctx>,
    pub dom: Vec<F>,
    pub com: Vec<F>,
    pub mul: Vec<[F; 3]>,
    pending: Option<usize>,
    /// Whether all constraints so far hold.
    pub sat: bool,
    /// Whether every free value is the one the gadget computed.
    pub honest: bool,
    /// The values given to the free wires, in order.
    pub free: Vec<F>,
    pub constraints: usize,
    pub challenge: F,
    /// What the constraints that do not hold come to (the first few).
    pub off: Vec<F>,
    /// Values given to some of the free wires, by number.
    pub force: Vec<(usize, F)>,
    deferred: Vec<Box<dyn Fn(&mut Model<'static>) -> Result<(), R1CSError>>>,
}
impl<'c> Model<'c> {
    pub fn new(ctx: Option<&'c mut Ctx>, dom: Vec<F>) -> Self {
        Model { ctx, dom, com: vec![], mul: vec![], pending: None, sat: true, honest: true, free: vec![], constraints: 0, challenge: f(7), off: vec![], force: vec![], deferred: vec![] }
    }
    pub fn commit(&mut self, v: F) -> Variable {
        self.com.push(v);
        Variable::Committed(self.com.len() - 1)
    }
    pub fn val(&self, v: &Variable) -> F {
        match v {
            Variable::Committed(i) => self.com[*i].clone(),
            Variable::MultiplierLeft(i) => self.mul[*i][0].clone(),
            Variable::MultiplierRight(i) => self.mul[*i][1].clone(),
            Variable::MultiplierOutput(i) => self.mul[*i][2].clone(),
            Variable::One() => f(1),
        }
    }
    pub fn eval(&self, lc: &LinearCombination) -> F {
        let mut s = f(0);
        for (v, k) in &lc.terms { s = s + self.val(v) * k.clone() }
        s
    }
    fn choice(&mut self, honest: Option<F>) -> F {
        let honest = honest.unwrap_or_else(|| f(0));
        let mut x = honest.clone();
        if let Some((_, y)) = self.force.iter().find(|y| y.0 == self.free.len()) {
            self.honest = self.honest && x == *y;
            x = y.clone();
        } else if self.sat {
            if let Some(c) = self.ctx.as_mut() {
                let others: Vec<F> = self.dom.iter().filter(|d| **d != honest).cloned().collect();
                let i = c.choose("wire", others.len() + 1);
                if i > 0 { x = others[i - 1].clone(); self.honest = false }
            }
        }
        self.free.push(x.clone());
        x
    }
}
impl<'c> ConstraintSystem for Model<'c> {
    type RandomizedCS = Model<'static>;
    fn multiply(&mut self, l: LinearCombination, r: LinearCombination) -> (Variable, Variable, Variable) {
        let (a, b) = (self.eval(&l), self.eval(&r));
        let i = self.mul.len();
        self.mul.push([a.clone(), b.clone(), a * b]);
        (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
    }
    fn allocate(&mut self, x: Option<F>) -> Result<Variable, R1CSError> {
        self.allocate_single(x).map(|x| x.0)
    }
    fn allocate_multiplier(&mut self, x: Option<(F, F)>) -> Result<(Variable, Variable, Variable), R1CSError> {
        let (a, b) = match x { Some((a, b)) => (Some(a), Some(b)), None => (None, None) };
        let a = self.choice(a);
        let b = self.choice(b);
        let i = self.mul.len();
        self.mul.push([a.clone(), b.clone(), a * b]);
        Ok((Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)))
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.constraints += 1;
        let x = self.eval(&lc);
        if !x.is_zero() {
            self.sat = false;
            if self.off.len() < 4 { self.off.push(x) }
        }
    }
    fn specify_randomized_constraints<G>(&mut self, callback: G) -> Result<(), R1CSError>
    where G: 'static + Fn(&mut Model<'static>) -> Result<(), R1CSError> {
        self.deferred.push(Box::new(callback));
        Ok(())
    }
    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<F> { Some(self.eval(lc)) }
    fn allocate_single(&mut self, x: Option<F>) -> Result<(Variable, Option<Variable>), R1CSError> {
        let x = self.choice(x);
        Ok(match self.pending.take() {
            None => {
                let i = self.mul.len();
                self.mul.push([x, f(0), f(0)]);
                self.pending = Some(i);
                (Variable::MultiplierLeft(i), None)
            }
            Some(i) => {
                let l = self.mul[i][0].clone();
                self.mul[i] = [l.clone(), x.clone(), l * x];
                (Variable::MultiplierRight(i), Some(Variable::MultiplierOutput(i)))
            }
        })
    }
}
impl<'c> RandomizedConstraintSystem for Model<'c> {
    fn challenge_scalar(&mut self, _: &'static [u8]) -> F { self.challenge.clone() }
}
impl<'c> Model<'c> {
    /// Runs the constraints of the second phase.
    pub fn second(self) -> Result<Model<'static>, R1CSError> {
        let mut d = self.deferred;
        let mut m = Model { ctx: None, dom: self.dom, com: self.com, mul: self.mul, pending: None, sat: self.sat, honest: self.honest, free: self.free, constraints: self.constraints, challenge: self.challenge, off: self.off, force: self.force, deferred: vec![] };
        for cb in d.drain(..) { cb(&mut m)? }
        Ok(m)
    }
}
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::Prover;
/// A constraint system that values can be committed in.
pub trait Builder: ConstraintSystem {
    fn put(&mut self, v: F) -> AllocatedQuantity;
    fn put_blinded(&mut self, v: F, _blinding: F) -> AllocatedQuantity { self.put(v) }
}
impl<'c> Builder for Model<'c> {
    fn put(&mut self, v: F) -> AllocatedQuantity {
        AllocatedQuantity { variable: self.commit(v.clone()), assignment: Some(v) }
    }
}
/// The library's prover with the free wires set by the explorer.
pub struct Cheat<'a, 'b> { pub p: Prover<'a, 'b>, pub coms: Vec<G1>, free: std::vec::IntoIter<F> }
impl<'a, 'b> Cheat<'a, 'b> {
    pub fn new(p: Prover<'a, 'b>, free: Vec<F>) -> Self { Cheat { p, coms: vec![], free: free.into_iter() } }
    fn next(&mut self, x: Option<F>) -> Option<F> { self.free.next().or(x) }
}
impl<'a, 'b> Builder for Cheat<'a, 'b> {
    fn put(&mut self, v: F) -> AllocatedQuantity {
        let r = f(1000 + self.coms.len() as i64);
        self.put_blinded(v, r)
    }
    fn put_blinded(&mut self, v: F, blinding: F) -> AllocatedQuantity {
        let (c, variable) = self.p.commit(v.clone(), blinding);
        self.coms.push(c);
        AllocatedQuantity { variable, assignment: Some(v) }
    }
}
impl<'a, 'b> ConstraintSystem for Cheat<'a, 'b> {
    type RandomizedCS = <Prover<'a, 'b> as ConstraintSystem>::RandomizedCS;
    fn multiply(&mut self, l: LinearCombination, r: LinearCombination) -> (Variable, Variable, Variable) { self.p.multiply(l, r) }
    fn allocate(&mut self, x: Option<F>) -> Result<Variable, R1CSError> { let x = self.next(x); self.p.allocate(x) }
    fn allocate_multiplier(&mut self, x: Option<(F, F)>) -> Result<(Variable, Variable, Variable), R1CSError> {
        let (a, b) = match x { Some((a, b)) => (Some(a), Some(b)), None => (None, None) };
        let a = self.next(a);
        let b = self.next(b);
        self.p.allocate_multiplier(a.and_then(|a| b.map(|b| (a, b))))
    }
    fn constrain(&mut self, lc: LinearCombination) { self.p.constrain(lc) }
    fn specify_randomized_constraints<G>(&mut self, callback: G) -> Result<(), R1CSError>
    where G: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError> { self.p.specify_randomized_constraints(callback) }
    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<F> { self.p.evaluate_lc(lc) }
    fn allocate_single(&mut self, x: Option<F>) -> Result<(Variable, Option<Variable>), R1CSError> { let x = self.next(x); self.p.allocate_single(x) }
}
