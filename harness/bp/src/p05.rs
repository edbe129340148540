//! P05: sparse Merkle trees with 4 and 8 children, in the clear and as circuits.
use crate::util::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::{BulletproofError, R1CSError};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::LeafValueType;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Verifier};
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
use mc::*;
use merlin::Transcript;
use rand::rngs::OsRng;
use std::collections::BTreeMap;
use std::sync::Arc;

/// A hash of any number of values that is cheap in circuits: the square of a combination with random coefficients.
#[derive(Clone, Debug)]
pub struct Mix;
fn coeff(i: usize) -> F {
    static C: Memo<usize, F> = Memo::new();
    (*C.of(&i, || F::from_msg_hash(format!("coefficient {}", i).as_bytes()))).clone()
}
fn mix(x: &[F]) -> F { x.iter().enumerate().fold(coeff(100 + x.len()), |a, (i, v)| a + &coeff(i) * v).square() }
impl Arity4MerkleTreeHash for Mix {
    fn hash(&self, x: Vec<F>) -> Result<F, BulletproofError> { <Self as Arity4MerkleTreeHash>::is_num_inputs_correct(&x)?; Ok(mix(&x)) }
}
impl Arity8MerkleTreeHash for Mix {
    fn hash(&self, x: Vec<F>) -> Result<F, BulletproofError> { <Self as Arity8MerkleTreeHash>::is_num_inputs_correct(&x)?; Ok(mix(&x)) }
}
macro_rules! mix_constraints { ($t:ident) => {
    impl $t for Mix {
        fn prover_setup(&mut self, _: &mut Prover) -> Result<(), R1CSError> { Ok(()) }
        fn verifier_setup(&mut self, _: &mut Verifier, _: Option<&G1>, _: Option<&G1>) -> Result<(), R1CSError> { Ok(()) }
        fn hash<CS: ConstraintSystem>(&self, cs: &mut CS, x: Vec<LinearCombination>) -> Result<LinearCombination, R1CSError> {
            let mut s = LinearCombination::from(coeff(100 + x.len()));
            for (i, v) in x.into_iter().enumerate() { s = s + coeff(i) * v }
            Ok(cs.multiply(s.clone(), s).2.into())
        }
    }
} }
mix_constraints!(Arity4MerkleTreeHashConstraints);
mix_constraints!(Arity8MerkleTreeHashConstraints);

fn wide(i: u128) -> F {
    let mut x = f(0);
    let k = F::from(1u64 << 32);
    for s in vec![96, 64, 32, 0] { x = &x * &k + &F::from((i >> s) as u64 & 0xffff_ffff) }
    x
}
fn narrow(x: &F) -> Option<u128> {
    let b = x.to_bytes();
    let (hi, lo) = b.split_at(b.len() - 16);
    if hi.iter().any(|b| *b != 0) { return None }
    Some(lo.iter().fold(0, |a, b| a << 8 | *b as u128))
}
fn expect_bool<E>(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<bool, E>) -> R {
    let got = verdict(c, key, &what, f)?;
    c.ensure(got == Some(want) || (got.is_none() && !want), key, || format!("{}: {:?}", what(), got))
}
fn params(w: usize) -> Arc<PoseidonParams> {
    static C: Memo<usize, PoseidonParams> = Memo::new();
    C.of(&w, || PoseidonParams::new(w, 1, 1, 0).expect("parameters"))
}

macro_rules! arity { ($m:ident, $A:expr, $DB:ident, $Node:ident, $Tree:ident, $H:ident, $HC:ident, $Pos:ident, $file:ident, $gadget:ident, $gen:ident, $verify:ident, $cap:ident) => {
pub mod $m {
    use super::*;
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::$file::{$gadget, $DB, $Node, $Tree};
    use bulletproofs_amcl::r1cs::gadgets::$file::{$gen, $verify};
    const A: usize = $A;
    type Tree<'a, H> = $Tree<'a, H>;
    type Db = InMemoryHashDb<$DB>;
    type Node = $Node;

    /// The tree by its definition: an array of leaves.
    pub struct Model { pub depth: usize, pub leaves: Vec<F> }
    impl Model {
        pub fn new(depth: usize) -> Self { Model { depth, leaves: vec![f(0); A.pow(depth as u32)] } }
        pub fn root(&self, h: &dyn Fn(Vec<F>) -> F) -> F {
            let mut l = self.leaves.clone();
            while l.len() > 1 { l = l.chunks(A).map(|c| h(c.to_vec())).collect() }
            l[0].clone()
        }
        /// Siblings from the root down.
        pub fn path(&self, mut i: usize, h: &dyn Fn(Vec<F>) -> F) -> Vec<Vec<F>> {
            let mut l = self.leaves.clone();
            let mut out = vec![];
            for _ in 0..self.depth {
                let b = i / A * A;
                out.push((b..b + A).filter(|j| *j != i).map(|j| l[j].clone()).collect());
                l = l.chunks(A).map(|c| h(c.to_vec())).collect();
                i /= A;
            }
            out.reverse();
            out
        }
    }
    pub fn fold(i: usize, leaf: &F, path: &[Vec<F>], h: &dyn Fn(Vec<F>) -> F) -> F {
        let (mut i, mut v) = (i, leaf.clone());
        for p in path.iter().rev() {
            let mut c = p.clone();
            c.insert(i % A, v);
            v = h(c);
            i /= A;
        }
        v
    }
    fn node(v: &[F]) -> Node {
        let mut n: Node = Default::default();
        n.clone_from_slice(v);
        n
    }
    fn hf(x: Vec<F>) -> F { mix(&x) }

    /// Sequences of updates, each observed completely.
    pub fn updates(c: &mut Ctx) -> R {
        let depth = c.pick("depth", &[0usize, 1, 2, 3][..c.q(3, 4)]);
        let n = A.pow(depth as u32);
        let all: Vec<usize> = { let mut v = vec![0, 1, A - 1, A, n / 2, n - 1, A + 1]; v.retain(|i| *i < n); v.sort(); v.dedup(); v };
        let t = Mix;
        let mut db = Db::new();
        let mut tree = match verdict(c, "new", || "a new tree".into(), || Tree::new(&t, depth, &mut db))? {
            Some(t) => t,
            None => return violation("new", "a new tree is refused"),
        };
        let mut m = Model::new(depth);
        let mut old: Vec<(Tree<Mix>, Vec<F>)> = vec![];
        c.ensure(tree.root == m.root(&hf), "root", || format!("root of the empty tree of depth {}", depth))?;
        for _ in 0..c.q(3, 3) {
            let w = c.choose("update", all.len() + 1);
            if w == 0 { break }
            let i = all[w - 1];
            let v = c.pick("value", &[1i64, 0, 2, -1][..c.q(2, 3)]);
            old.push((tree.clone(), m.leaves.clone()));
            m.leaves[i] = f(v);
            let got = verdict(c, "update", || format!("leaf {} becomes {}", i, v), || tree.update(&f(i as i64), f(v), &mut db))?;
            let root = m.root(&hf);
            c.ensure(got.as_ref() == Some(&root) && tree.root == root, "root", || format!("root after leaf {} became {}", i, v))?;
            c.state(&(A, depth, m.leaves.iter().map(name).collect::<Vec<_>>()));
        }
        let what = || format!("{} children, depth {}, leaves {:?}", A, depth, m.leaves.iter().map(name).collect::<Vec<_>>());
        let probe: Vec<usize> = if c.thorough() || n <= 8 { (0..n).collect() } else { let mut p = all.clone(); p.extend(vec![2, n / 2 + 1, n - 2]); p.sort(); p.dedup(); p };
        for &i in &probe {
            let x = f(i as i64);
            let path = m.path(i, &hf);
            let mut pr = Some(vec![]);
            let got = verdict(c, "get", || format!("{}: leaf {}", what(), i), || tree.get(&x, &mut pr, &db))?;
            c.ensure(got.as_ref() == Some(&m.leaves[i]), "get", || format!("{}: leaf {} is {:?}", what(), i, got.as_ref().map(name)))?;
            let pr = pr.unwrap();
            c.ensure(pr.iter().map(|n| n.to_vec()).collect::<Vec<_>>() == path, "path", || format!("{}: proof of leaf {}", what(), i))?;
            let none = verdict(c, "get", || format!("{}: leaf {}", what(), i), || tree.get(&x, &mut None, &db))?;
            c.ensure(none.as_ref() == Some(&m.leaves[i]), "get", || format!("{}: leaf {} without a proof", what(), i))?;
            let mut check = |c: &mut Ctx, j: &F, v: &F, p: &[Node], root: Option<&F>, want: bool, key: &str| -> R {
                let got = verdict(c, key, || format!("{}: proof of leaf {}", what(), i), || tree.verify_proof(j, v, p, root))?;
                c.ensure(got.unwrap_or(false) == want, key, || format!("{}: the proof of leaf {} as one of leaf {} = {} with {} nodes: {:?}", what(), i, name(j), name(v), p.len(), got))
            };
            check(c, &x, &m.leaves[i], &pr, None, true, "verify")?;
            check(c, &x, &m.leaves[i], &pr, Some(&tree.root), true, "verify")?;
            check(c, &x, &m.leaves[i], &pr, Some(&(&tree.root + &f(1))), false, "verify:root")?;
            check(c, &x, &(&m.leaves[i] + &f(1)), &pr, None, false, "verify:value")?;
            for &j in &probe {
                let ok = fold(j, &m.leaves[i], &path, &hf) == tree.root;
                check(c, &f(j as i64), &m.leaves[i], &pr, None, ok, "verify:index")?;
            }
            // beyond the last leaf the indices start again
            for j in vec![f((i + n) as i64), f((i + n * A) as i64)] { check(c, &j, &m.leaves[i], &pr, None, true, "beyond")? }
            for d in 0..pr.len() { for k in 0..A - 1 {
                let mut p = pr.clone();
                p[d][k] = &p[d][k] + &f(1);
                check(c, &x, &m.leaves[i], &p, None, false, "verify:node")?;
            } }
            // too few, too many nodes
            for d in 0..pr.len() { check(c, &x, &m.leaves[i], &pr[..d], None, false, "verify:short")? }
            let mut p = pr.clone();
            p.push(Default::default());
            check(c, &x, &m.leaves[i], &p, None, false, "verify:long")?;
            if depth > 0 {
                // an inner node is no leaf
                let v = fold(i % A, &m.leaves[i], &path[depth - 1..], &hf);
                check(c, &f((i / A) as i64), &v, &pr[..depth - 1], None, false, "verify:inner")?;
            }
            // as they were before
            for (t, l) in &old {
                let mut pr = Some(vec![]);
                let got = verdict(c, "old", || format!("{}: leaf {} of an earlier tree", what(), i), || t.get(&x, &mut pr, &db))?;
                c.ensure(got.as_ref() == Some(&l[i]), "old", || format!("{}: leaf {} of an earlier tree {:?} is {:?}", what(), i, l.iter().map(name).collect::<Vec<_>>(), got.as_ref().map(name)))?;
                check(c, &x, &l[i], &pr.unwrap(), Some(&t.root), true, "old")?;
            }
        }
        // beyond the last leaf the indices start again
        for i in vec![0, 1 % n, n - 1] { for j in vec![f((n + i) as i64), f((n * A * 3 + i) as i64)] {
            let got = verdict(c, "beyond", || format!("{}: leaf {}", what(), name(&j)), || tree.get(&j, &mut None, &db))?;
            c.ensure(got.as_ref() == Some(&m.leaves[i]), "beyond", || format!("{}: leaf {}", what(), name(&j)))?;
            let (mut d2, mut t2) = (db.clone(), tree.clone());
            verdict(c, "beyond", || format!("{}: leaf {} set", what(), name(&j)), || t2.update(&j, f(5), &mut d2))?;
            let mut m2 = Model { depth, leaves: m.leaves.clone() };
            m2.leaves[i] = f(5);
            c.ensure(t2.root == m2.root(&hf), "beyond", || format!("{}: leaf {} set", what(), name(&j)))?;
        } }
        // nothing is found in an empty database
        if depth > 0 { expect(c, false, "nodb", || format!("{}: an empty database", what()), || tree.get(&f(0), &mut None, &Db::new()))? }
        Ok(())
    }

    /// One circuit: an index, a leaf and nodes.
    fn circuit<B: Builder>(b: &mut B, depth: usize, root: &F, hidden: bool, index: &F, leaf: &F, nodes: &[F]) -> Result<(), R1CSError> {
        let i = b.put(index.clone());
        let l = if hidden { LeafValueType::Hidden(b.put(leaf.clone()).variable) } else { LeafValueType::Known(leaf.clone()) };
        let v = nodes.iter().map(|x| b.put(x.clone()).variable).collect();
        $gadget(b, depth, root, l, i, v, &mut Mix)
    }
    fn forge(depth: usize, root: &F, hidden: bool, index: &F, leaf: &F, nodes: &[F], free: &[F]) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
        let ge = gens(128);
        let mut t = Transcript::new(b"tree");
        let mut b = Cheat::new(Prover::new(&ge.g, &ge.h, &mut t), free.to_vec());
        circuit(&mut b, depth, root, hidden, index, leaf, nodes)?;
        Ok((b.p.prove(&ge.G, &ge.H)?, b.coms))
    }
    fn check<H: $HC>(h: &mut H, depth: usize, root: &F, leaf: Option<F>, p: &R1CSProof, coms: &[G1]) -> Result<(), R1CSError> {
        let ge = gens(128);
        $verify(root, depth, h, p.clone(), leaf, coms.to_vec(), b"tree", &ge.g, &ge.h, &ge.G, &ge.H)
    }
    fn baseline(depth: usize, hidden: bool) -> bool {
        static C: Memo<(usize, bool), bool> = Memo::new();
        *C.of(&(depth, hidden), || {
            let m = sample(depth);
            let nodes: Vec<F> = m.path(0, &hf).concat();
            let leaf = m.leaves[0].clone();
            let root = m.root(&hf);
            matches!(guard(|| forge(depth, &root, hidden, &f(0), &leaf, &nodes, &[]).and_then(|(p, c)| check(&mut Mix, depth, &root, if hidden { None } else { Some(leaf.clone()) }, &p, &c))), Ok(Ok(())))
        })
    }
    fn sample(depth: usize) -> Model {
        let mut m = Model::new(depth);
        for (i, l) in m.leaves.iter_mut().enumerate() { *l = f(200 + i as i64) }
        m
    }
    /// The circuit, with every choice of a prover.
    pub fn witness(c: &mut Ctx) -> R {
        let depth = c.pick("depth", &[0usize, 1, 2][..c.q(if A == 4 { 3 } else { 2 }, 3)]);
        let n = A.pow(depth as u32);
        let hidden = c.flag("hidden");
        let m = sample(depth);
        let root = m.root(&hf);
        let i = if n <= 8 { c.choose("leaf", n) } else { c.pick("leaf", &[0, 1, 2, 3, 4, 7, 9, n - 1]) };
        let path = m.path(i, &hf);
        let mut nodes: Vec<F> = path.concat();
        let mut leaf = m.leaves[i].clone();
        // the committed index: any other leaf, and the ones that come out the same if digits or bits are not checked
        let mut js: Vec<F> = vec![f(i as i64)];
        let extra = vec![f((i + n) as i64), f(i as i64 - n as i64), f(n as i64), f(-1), f(i as i64 ^ 1), f(i as i64 ^ 2), f((i + A) as i64)];
        for j in extra { if !js.contains(&j) { js.push(j) } }
        let j = js[c.choose("index", js.len())].clone();
        let mut tampered = false;
        match c.choose("alter", 3) {
            1 => { leaf = &leaf + &f(1); tampered = true }
            2 if !nodes.is_empty() => { let k = c.choose("node", nodes.len()); nodes[k] = &nodes[k] + &f(1); tampered = true }
            2 => return Ok(()),
            _ => {}
        }
        let what = || format!("{} children, depth {}: leaf {} at index {}", A, depth, name(&leaf), name(&j));
        // all that a prover may choose
        let mut md = crate::util::Model::new(Some(&mut *c), vec![f(0), f(1), f(-1), f(2)]);
        let r = guard(|| circuit(&mut md, depth, &root, hidden, &j, &leaf, &nodes));
        let (sat, honest, free) = (md.sat, md.honest, md.free.clone());
        drop(md);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return violation("gadget", format!("{}: {:?}", what(), e)),
            Err(p) => return violation("gadget:panic", format!("{}: {}", what(), p)),
        }
        c.state(&(A, depth, hidden, i, name(&j), name(&leaf), nodes.iter().map(name).collect::<Vec<_>>(), free.iter().map(name).collect::<Vec<_>>()));
        let rows: Vec<Vec<F>> = nodes.chunks(A - 1).map(|c| c.to_vec()).collect();
        let ok = (0..n).any(|k| f(k as i64) == j && fold(k, &leaf, &rows, &hf) == root);
        c.outcome(if sat { "satisfied" } else { "unsatisfied" });
        if honest && ok { c.ensure(sat, "complete", || format!("{}: not satisfied", what()))? }
        if sat && !ok {
            let accepted = matches!(guard(|| forge(depth, &root, hidden, &j, &leaf, &nodes, &free).and_then(|(p, cs)| check(&mut Mix, depth, &root, if hidden { None } else { Some(leaf.clone()) }, &p, &cs))), Ok(Ok(())));
            return violation("sound", format!("a false statement has a witness ({}): {}, wires {:?}", if accepted { "and the library accepts its proof" } else { "though no accepted proof" }, what(), free.iter().map(name).collect::<Vec<_>>()));
        }
        if (sat || (honest && tampered && c.thorough())) && baseline(depth, hidden) {
            match verdict(c, "forge", &what, || forge(depth, &root, hidden, &j, &leaf, &nodes, &free))? {
                None => c.ensure(!sat, "conform", || format!("no proof: {}", what()))?,
                Some((p, cs)) => expect(c, sat, "conform", &what, || check(&mut Mix, depth, &root, if hidden { None } else { Some(leaf.clone()) }, &p, &cs))?,
            }
        }
        Ok(())
    }
    /// Proofs of another length than the tree's depth, made by a prover that lays out the shorter or longer circuit.
    pub fn lengths(c: &mut Ctx) -> R {
        let depth = c.pick("depth", &[0usize, 1, 2]);
        let m = sample(depth);
        let root = m.root(&hf);
        let hidden = c.flag("hidden");
        let count = c.choose("nodes", (A - 1) * (depth + 1) + 2);
        c.state(&(A, depth, hidden, count));
        let full: Vec<F> = m.path(0, &hf).concat();
        // from the root down: the first rows, padded
        let nodes: Vec<F> = (0..count).map(|k| full.get(k).cloned().unwrap_or_else(|| f(3))).collect();
        let levels = count / (A - 1);
        // the inner node at that level is what such a proof would show to be a leaf
        let mut leaf = m.leaves[0].clone();
        let rows = m.path(0, &hf);
        for r in rows[levels.min(depth)..].iter().rev() {
            let mut x = r.clone();
            x.insert(0, leaf);
            leaf = hf(x);
        }
        let ok = count == full.len();
        let what = || format!("{} children, depth {}: {} nodes", A, depth, count);
        let mut md = crate::util::Model::new(None, vec![]);
        let r = verdict(c, "length", &what, || circuit(&mut md, depth, &root, hidden, &f(0), &leaf, &nodes))?;
        c.ensure((r.is_some() && md.sat) == ok, "length", || format!("{}: {}", what(), if ok { "refused" } else { "taken for a leaf" }))?;
        // and for the library's verifier
        if count % (A - 1) == 0 && !ok {
            if let Some((p, cs)) = verdict(c, "length", &what, || forge(levels, &root, hidden, &f(0), &leaf, &nodes, &[]))? {
                expect(c, false, "length", || format!("{}: a proof", what()), || check(&mut Mix, depth, &root, if hidden { None } else { Some(leaf.clone()) }, &p, &cs))?;
            }
        }
        Ok(())
    }

    /// A sparse tree by its definition: the leaves that are not zero.
    fn sparse_levels(depth: usize, leaves: &BTreeMap<u128, F>) -> Vec<(BTreeMap<u128, F>, F)> {
        let mut out = vec![(leaves.clone(), f(0))];
        for _ in 0..depth {
            let (l, empty) = out.last().unwrap().clone();
            let mut up: BTreeMap<u128, F> = BTreeMap::new();
            for i in l.keys() {
                let b = i / A as u128;
                up.entry(b).or_insert_with(|| hf((0..A as u128).map(|k| l.get(&(b * A as u128 + k)).cloned().unwrap_or_else(|| empty.clone())).collect()));
            }
            let e = hf(vec![empty; A]);
            out.push((up, e));
        }
        out
    }
    fn sparse_root(levels: &[(BTreeMap<u128, F>, F)]) -> F {
        let (l, e) = levels.last().unwrap();
        l.get(&0).unwrap_or(e).clone()
    }
    fn sparse_path(levels: &[(BTreeMap<u128, F>, F)], i: u128) -> Vec<Vec<F>> {
        let mut i = i;
        let mut out = vec![];
        for (l, e) in &levels[..levels.len() - 1] {
            let b = i / A as u128 * A as u128;
            out.push((b..b + A as u128).filter(|j| *j != i).map(|j| l.get(&j).unwrap_or(e).clone()).collect());
            i /= A as u128;
        }
        out.reverse();
        out
    }
    /// Trees of many levels with a few leaves at the edges, and trees with many leaves.
    pub fn deep(c: &mut Ctx) -> R {
        let many = c.flag("many leaves");
        let deepest = if A == 4 { 60 } else { 40 };
        let depth = if many { c.pick("depth", &[5usize, 9]) } else { c.pick("depth", &[5, 9, 16, 22, 33, 4, 8, 17, 21, 32, deepest][..c.q(5, 11)].iter().cloned().filter(|d| *d <= deepest).collect::<Vec<_>>()) };
        let top: u128 = (A as u128).pow(depth as u32) - 1;
        let mut seq: Vec<(u128, i64)> = vec![];
        if many {
            let n = c.pick("leaves", &[33u128, 70, 300][..c.q(2, 3)]);
            let stride = c.pick("stride", &[1u128, 3, A as u128 * A as u128 + 1]);
            for k in 0..n { seq.push((k * stride % (top + 1), 5 + k as i64)) }
            for k in 0..5 { seq.push((k * stride * 7 % (top + 1), 0)) }
        } else {
            let w = top + 1;
            let mut e: Vec<u128> = vec![0, 1, top, top - 1, w / 2, w / A as u128, w / A as u128 - 1, A as u128, w - A as u128];
            e.extend((1..depth as u32).step_by(3).map(|k| (A as u128).pow(k) + 2));
            let a = c.choose("first", e.len());
            let b = c.choose("second", e.len() + 1);
            seq.push((e[a], 7));
            if b > 0 { seq.push((e[b - 1], c.pick("value", &[9i64, 0]))) }
        }
        c.state(&(A, depth, &seq));
        let t = Mix;
        let mut db = Db::new();
        let mut tree = match verdict(c, "new", || "a new tree".into(), || Tree::new(&t, depth, &mut db))? {
            Some(t) => t,
            None => return violation("new", "a new tree is refused"),
        };
        let mut leaves = BTreeMap::new();
        let what = |i: u128| format!("{} children, depth {}, leaf {} after {} updates", A, depth, i, seq.len());
        for (k, (i, v)) in seq.iter().enumerate() {
            leaves.insert(*i, f(*v));
            let got = verdict(c, "update", || what(*i), || tree.update(&wide(*i), f(*v), &mut db))?;
            if k % 10 == 0 || k + 1 == seq.len() {
                let root = sparse_root(&sparse_levels(depth, &leaves));
                c.ensure(got.as_ref() == Some(&root) && tree.root == root, "root", || format!("{}: the root after update {}", what(*i), k))?;
            }
        }
        let levels = sparse_levels(depth, &leaves);
        let mut probe: Vec<u128> = seq.iter().map(|x| x.0).collect();
        probe.extend(vec![2, top - 2, top / 3]);
        for i in seq.iter().take(4).map(|x| x.0) { probe.extend(vec![i ^ 1, (i + A as u128) % (top + 1), (i + (top + 1) / A as u128) % (top + 1)]) }
        for i in probe {
            let mut pr = Some(vec![]);
            let want = leaves.get(&i).cloned().unwrap_or_else(|| f(0));
            let got = verdict(c, "get", || what(i), || tree.get(&wide(i), &mut pr, &db))?;
            c.ensure(got.as_ref() == Some(&want), "get", || format!("{}: {:?}", what(i), got.as_ref().map(name)))?;
            let pr = pr.unwrap();
            c.ensure(pr.iter().map(|n| n.to_vec()).collect::<Vec<_>>() == sparse_path(&levels, i), "path", || format!("{}: the proof", what(i)))?;
            expect_bool(c, true, "verify", || what(i), || tree.verify_proof(&wide(i), &want, &pr, None))?;
            expect_bool(c, false, "verify:value", || what(i), || tree.verify_proof(&wide(i), &(&want + &f(1)), &pr, None))?;
            // another index: at each level another child, which serves only if the siblings are the same
            let mut p = 1u128;
            for d in 0..depth {
                let j = if i / p % A as u128 == 0 { i + p } else { i - p };
                let mut x = i;
                let mut same = true;
                for (k, row) in pr.iter().rev().enumerate() {
                    let (a, b) = (x % A as u128, j / (A as u128).pow(k as u32) % A as u128);
                    if a != b {
                        // the child moves past the siblings between its two places
                        let own = levels[k].0.get(&x).unwrap_or(&levels[k].1).clone();
                        let mut l = row.to_vec(); l.insert(a as usize, own.clone());
                        let mut m = row.to_vec(); m.insert(b as usize, own);
                        same = same && l == m;
                    }
                    x /= A as u128;
                }
                if depth <= 9 || d % 5 == 0 { expect_bool(c, same, "verify:index", || format!("{} as leaf {}", what(i), j), || tree.verify_proof(&wide(j), &want, &pr, None))? }
                p *= A as u128;
            }
            for d in 0..pr.len() {
                if depth > 9 && d % 4 != 0 { continue }
                let mut p = pr.clone();
                p[d][d % (A - 1)] = &p[d][d % (A - 1)] + &f(1);
                expect_bool(c, false, "verify:node", || format!("{}: node {} altered", what(i), d), || tree.verify_proof(&wide(i), &want, &p, None))?;
            }
        }
        Ok(())
    }
    /// Circuits of many levels: the honest assignment, and at each level every wire of the index, alone and in groups,
    /// set to other values; the root is what then comes out.
    pub fn witness_deep(c: &mut Ctx) -> R {
        let depth = c.pick("depth", &[3usize, 4, 5, 6, 9, if A == 4 { 17 } else { 12 }][..c.q(5, 6)]);
        let hidden = c.flag("hidden");
        let top: u128 = (A as u128).pow(depth as u32) - 1;
        let index = c.pick("index", &[0, top, top / 3, top / 7 * 3, 1, top - 1][..c.q(4, 6)]);
        let leaf = f(5);
        let nodes: Vec<F> = (0..depth * (A - 1)).map(|i| f(1000 + i as i64)).collect();
        let rows: Vec<Vec<F>> = nodes.chunks(A - 1).map(|c| c.to_vec()).collect();
        let fold = |mut i: u128, leaf: &F| {
            let mut v = leaf.clone();
            for p in rows.iter().rev() { let mut x = p.clone(); x.insert((i % A as u128) as usize, v); v = hf(x); i /= A as u128; }
            v
        };
        let right = fold(index, &leaf);
        let what = || format!("{} children, depth {}: leaf {}", A, depth, index);
        let run = |root: &F, j: &F, leaf: &F, force: Vec<(usize, F)>| -> V<(bool, Vec<F>, Vec<F>)> {
            let mut m = crate::util::Model::new(None, vec![]);
            m.force = force;
            match guard(|| circuit(&mut m, depth, root, hidden, j, leaf, &nodes)) {
                Ok(Ok(())) => Ok((m.sat, m.free, m.off)),
                Ok(Err(e)) => Err(Violation { key: "gadget".into(), msg: format!("{}: {:?}", what(), e) }),
                Err(p) => Err(Violation { key: "gadget:panic".into(), msg: format!("{}: {}", what(), p) }),
            }
        };
        let (sat, free, _) = run(&right, &wide(index), &leaf, vec![])?;
        c.step();
        c.state(&(A, depth, hidden, index));
        c.ensure(sat, "complete", || format!("{}: not satisfied", what()))?;
        // what is false for the honest wires
        for (j, l, r) in vec![(wide(index ^ 1), leaf.clone(), right.clone()), (wide(index), f(6), right.clone()), (wide(index), leaf.clone(), &right + &f(1)), (wide(index) + wide(top + 1), leaf.clone(), right.clone()), (wide(index) - wide(top + 1), leaf.clone(), right.clone())] {
            c.step();
            let (sat, _, _) = run(&r, &j, &l, vec![])?;
            c.ensure(!sat, "sound", || format!("{}: satisfied with index {}, leaf {}", what(), name(&j), name(&l)))?;
        }
        let group = 2;
        let at = c.choose("wires", (free.len() + group - 1) / group + 1);
        let dom = [f(0), f(1), f(2), f(-1), f(2).inverse()];
        for i in (at * group..(at + 1) * group).filter(|i| *i < free.len()) {
            for v in &dom {
                for u in dom.iter().map(Some).chain(std::iter::once(None)) {
                    let mut force = vec![(i, v.clone())];
                    if let Some(u) = u { if i + 1 >= free.len() { continue } force.push((i + 1, u.clone())) }
                    if force.iter().all(|(i, v)| free[*i] == *v) { continue }
                    // the index as the wires now say, in the place that the wire's weight belongs to; or as it was
                    let mut js = vec![wide(index)];
                    let (mut p, mut w) = (wide(1), 1u128);
                    for _ in 0..depth * if A == 4 { 2 } else { 3 } {
                        for (k, x) in &force {
                            let d = x - &free[*k];
                            let y = wide(index) + &p * &d;
                            if w == weight(*k, depth) && !js.contains(&y) { js.push(y) }
                        }
                        p = &p + &p;
                        w = w.wrapping_add(1);
                    }
                    for j in js {
                        c.step();
                        let (sat, _, off) = run(&right, &j, &leaf, force.clone())?;
                        let honest = |j: &F, root: &F| narrow(j).map_or(false, |k| k <= top && fold(k, &leaf) == *root);
                        let roots = if sat { vec![right.clone()] } else if off.len() == 1 { vec![&right + &off[0], &right - &off[0]] } else { continue };
                        for root in roots {
                            if (j == wide(index) && root == right) || honest(&j, &root) { continue }
                            let (sat, free, _) = run(&root, &j, &leaf, force.clone())?;
                            if sat {
                                let accepted = depth <= 3 && matches!(guard(|| forge(depth, &root, hidden, &j, &leaf, &nodes, &free).and_then(|(p, cs)| check(&mut Mix, depth, &root, if hidden { None } else { Some(leaf.clone()) }, &p, &cs))), Ok(Ok(())));
                                return violation("sound", format!("{}: with wires {:?} a false statement (index {}) has a witness ({})", what(), force.iter().map(|w| (w.0, name(&w.1))).collect::<Vec<_>>(), name(&j), if accepted { "and the library accepts its proof" } else { "no proof tried or accepted" }));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// The weight (as a number of doublings, and one) of the bit that a free wire stands for, in the order of the levels.
    fn weight(wire: usize, _depth: usize) -> u128 { wire as u128 / 2 + 1 }
    /// The library's own proofs, with the cheap hash and with Poseidon.
    pub fn own(c: &mut Ctx) -> R {
        let hash = c.choose("hash", 3);
        let sbox = if hash == 1 { SboxType::Cube } else { SboxType::Inverse };
        let depth = c.pick("depth", &[0usize, 1, 2][..if hash == 0 || c.thorough() { 3 } else { 2 }]);
        let hidden = c.flag("hidden");
        let n = A.pow(depth as u32);
        let pa = params(A + 1);
        let mk = || PoseidonHashConstraints::new(&pa, &sbox, $cap);
        let h = |x: Vec<F>| if hash == 0 { mix(&x) } else { let s = if hash == 1 { crate::p04::S::Cube } else { crate::p04::S::Inverse }; crate::p04::reference(&crate::p04::Kind::Pos(A, 1, 0, 1, s), &x).expect("no zero") };
        let m = sample(depth);
        let root = m.root(&h);
        let i = c.pick("leaf", &[0, 1 % n, A % n, n - 1]);
        c.state(&(A, hash, depth, hidden, i));
        let path: Vec<Node> = m.path(i, &h).iter().map(|r| node(r)).collect();
        let leaf = m.leaves[i].clone();
        let ge = gens(256);
        let what = || format!("{} children, depth {}, leaf {}", A, depth, i);
        let prove = |leaf: &F, index: &F, hide: bool, blinds: Option<usize>, path: Vec<Node>, root: &F, depth: usize, random: bool| {
            let b = blinds.map(|k| (0..k).map(|x| f(70 + x as i64)).collect::<Vec<_>>());
            let mut rng = OsRng;
            let rng = if random { Some(&mut rng) } else { None };
            if hash == 0 {
                $gen(leaf.clone(), index.clone(), hide, b, path, root, depth, &mut Mix, rng, b"tree", &ge.g, &ge.h, &ge.G, &ge.H)
            } else {
                $gen(leaf.clone(), index.clone(), hide, b, path, root, depth, &mut mk(), rng, b"tree", &ge.g, &ge.h, &ge.G, &ge.H)
            }
        };
        let verify = |root: &F, depth: usize, known: Option<F>, p: &R1CSProof, cs: &[G1]| {
            if hash == 0 { $verify(root, depth, &mut Mix, p.clone(), known, cs.to_vec(), b"tree", &ge.g, &ge.h, &ge.G, &ge.H) }
            else { $verify(root, depth, &mut mk(), p.clone(), known, cs.to_vec(), b"tree", &ge.g, &ge.h, &ge.G, &ge.H) }
        };
        let known = if hidden { None } else { Some(leaf.clone()) };
        let x = f(i as i64);
        let own = verdict(c, "own", &what, || prove(&leaf, &x, hidden, None, path.clone(), &root, depth, true))?;
        let (p, cs) = match own { Some(x) => x, None => return violation("own", format!("{}: no proof", what())) };
        expect(c, true, "own", &what, || verify(&root, depth, known.clone(), &p, &cs))?;
        let b = 1 + hidden as usize;
        match verdict(c, "own", &what, || prove(&leaf, &x, hidden, Some(b), path.clone(), &root, depth, false))? {
            None => return violation("own", format!("{}: no proof with blindings", what())),
            Some((p, cs)) => expect(c, true, "own", &what, || verify(&root, depth, known.clone(), &p, &cs))?,
        }
        // other roots, leaves, ways to see the leaf, depths
        expect(c, false, "own:root", || format!("{}: another root", what()), || verify(&(&root + &f(1)), depth, known.clone(), &p, &cs))?;
        if hidden { expect(c, false, "own:known", || format!("{}: a hidden leaf shown", what()), || verify(&root, depth, Some(leaf.clone()), &p, &cs))? }
        else {
            expect(c, false, "own:known", || format!("{}: another leaf", what()), || verify(&root, depth, Some(&leaf + &f(1)), &p, &cs))?;
            expect(c, false, "own:known", || format!("{}: a shown leaf hidden", what()), || verify(&root, depth, None, &p, &cs))?;
        }
        for d in 0..4 { if d != depth { expect(c, false, "own:depth", || format!("{}: as of depth {}", what(), d), || verify(&root, d, known.clone(), &p, &cs))? } }
        let last = if c.thorough() { cs.len() } else { cs.len().min(A + 2) };
        for k in 0..last {
            for d in vec![ge.g.clone(), ge.h.clone()] {
                let mut y = cs.clone();
                y[k] = y[k].clone() + d;
                expect(c, false, "own:commitment", || format!("{}: commitment {} altered", what(), k), || verify(&root, depth, known.clone(), &p, &y))?;
            }
        }
        for k in 0..cs.len() { expect(c, false, "own:short", || format!("{}: {} of {} commitments", what(), k, cs.len()), || verify(&root, depth, known.clone(), &p, &cs[..k]))? }
        let mut y = cs.clone();
        y.push(ge.g.clone());
        expect(c, false, "own:long", || format!("{}: one more commitment", what()), || verify(&root, depth, known.clone(), &p, &y))?;
        // lies of the library's own prover
        let mut lies: Vec<(&str, F, F, Vec<Node>, F)> = vec![
            ("another leaf", &leaf + &f(1), x.clone(), path.clone(), root.clone()),
            ("an index beyond", leaf.clone(), f((i + n) as i64), path.clone(), root.clone()),
            ("a negative index", leaf.clone(), f(i as i64 - n as i64), path.clone(), root.clone()),
        ];
        if depth > 0 {
            lies.push(("another index", leaf.clone(), f(i as i64 ^ 1), path.clone(), root.clone()));
            let mut q = path.clone();
            q[0][A - 2] = f(1);
            lies.push(("another node", leaf.clone(), x.clone(), q, root.clone()));
        }
        for (w, l, j, q, r) in lies {
            if let Some((p, cs)) = verdict(c, "lie", || format!("{}: {}", what(), w), || prove(&l, &j, hidden, None, q.clone(), &r, depth, true))? {
                let k = if hidden { None } else { Some(if w == "another leaf" { l.clone() } else { leaf.clone() }) };
                expect(c, false, "lie", || format!("{}: {}", what(), w), || verify(&root, depth, k, &p, &cs))?;
            }
        }
        // what does not fit together is an error
        let mut q = path.clone();
        q.push(Default::default());
        expect(c, false, "misfit", || format!("{}: one more node", what()), || prove(&leaf, &x, hidden, None, q.clone(), &root, depth, true))?;
        if depth > 0 { expect(c, false, "misfit", || format!("{}: one node less", what()), || prove(&leaf, &x, hidden, None, path[1..].to_vec(), &root, depth, true))? }
        for k in 0..4 { if k != b { expect(c, false, "misfit", || format!("{}: {} blindings", what(), k), || prove(&leaf, &x, hidden, Some(k), path.clone(), &root, depth, false))? } }
        expect(c, false, "misfit", || format!("{}: no randomness", what()), || prove(&leaf, &x, hidden, None, path.clone(), &root, depth, false))?;
        if depth > 0 {
            let few = gens(1);
            expect(c, false, "misfit", || format!("{}: too few generators", what()), || $gen(leaf.clone(), x.clone(), hidden, Some((0..b).map(|k| f(k as i64)).collect()), path.clone(), &root, depth, &mut Mix, None::<&mut OsRng>, b"tree", &few.g, &few.h, &few.G, &few.H))?;
        }
        Ok(())
    }
}
} }
arity!(four, 4, DbVal4ary, ProofNode4ary, VanillaSparseMerkleTree4, Arity4MerkleTreeHash, Arity4MerkleTreeHashConstraints, PoseidonHash4, sparse_merkle_tree_4_ary, vanilla_merkle_merkle_tree_4_verif_gadget, gen_proof_of_leaf_inclusion_4_ary_merkle_tree, verify_proof_of_leaf_inclusion_4_ary_merkle_tree, CAP_CONST_W_5);
arity!(eight, 8, DbVal8ary, ProofNode8ary, VanillaSparseMerkleTree8, Arity8MerkleTreeHash, Arity8MerkleTreeHashConstraints, PoseidonHash8, sparse_merkle_tree_8_ary, vanilla_merkle_merkle_tree_8_verif_gadget, gen_proof_of_leaf_inclusion_8_ary_merkle_tree, verify_proof_of_leaf_inclusion_8_ary_merkle_tree, CAP_CONST_W_9);

/// Base-2^n digits of any scalar.
fn digits(c: &mut Ctx) -> R {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::get_repr_in_power_2_base;
    let n = c.pick("bits", &[1u8, 2, 3, 4, 5, 6, 7, 8]);
    let count = c.choose("digits", 12);
    let x = c.pick("number", &[0u64, 1, 2, 3, 5, 7, 8, 63, 64, 255, 256, 0x1234_5678, 0xffff_ffff, 0x0fff_ffff_ffff_ffff]);
    c.state(&(n, count, x));
    let mut e = F::new();
    for i in (0..64).rev() { e = &e + &e; if x >> i & 1 == 1 { e = e + f(1) } }
    let want: Vec<u8> = (0..count).rev().map(|i| { let s = i as u32 * n as u32; if s >= 64 { 0 } else { ((x >> s) & ((1u64 << n) - 1)) as u8 } }).collect();
    let got = c.no_panic("digits", "the digits", || get_repr_in_power_2_base(n, &e, count))?;
    c.same(got, want, "digits", &format!("{} digits of {} bits of {}", count, n, x))
}
pub fn build(_t: Tier) -> Check {
    let _: Option<FieldElement> = None;
    Check {
        rule: "An execution is one sequence of updates of a sparse Merkle tree, after which every leaf is read and proved, and every proof checked against every leaf, altered, shortened and lengthened; or one circuit about a leaf, an index and the nodes of a path, with all wires that a prover is free to choose chosen by the explorer; or one proof of the library. A state is one content of the tree or one assignment. The oracle is an array of leaves hashed level by level.".into(),
        assumptions: vec!["trees of depth up to 2 (3): the code is a loop over the levels".into(), "the square of a combination with random coefficients stands for a hash function; Poseidon takes its place in the library's own proofs".into(), "group and field arithmetic is amcl_wrapper's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("updates4", "4 children, depths 0..2 (3), sequences of up to 3 updates of up to 7 leaves with 2 (3) values", four::updates),
            Scenario::new("updates8", "8 children, the same", eight::updates),
            Scenario::new("witness4", "4 children, depths 0..2, up to 8 leaves x 8 indices x one altered value x all free wires over 4 values", four::witness),
            Scenario::new("witness8", "8 children, depths 0..1 (2), the same", eight::witness),
            Scenario::new("deep4", "4 children, depths 4 to 33 (60): two updates at up to 20 edges; 33 and 70 (300) leaves in 3 orders", four::deep),
            Scenario::new("witness-deep4", "4 children, depths 3 to 9 (17, 12): 4 (6) indices, each wire of the index and each two neighbours at 5 values", four::witness_deep),
            Scenario::new("lengths4", "4 children, depths 0..2: any number of nodes", four::lengths),
            Scenario::new("deep8", "8 children, depths 4 to 33 (60): two updates at up to 20 edges; 33 and 70 (300) leaves in 3 orders", eight::deep),
            Scenario::new("witness-deep8", "8 children, depths 3 to 9 (17, 12): 4 (6) indices, each wire of the index and each two neighbours at 5 values", eight::witness_deep),
            Scenario::new("lengths8", "8 children, the same", eight::lengths),
            Scenario::new("own4", "4 children: 3 hashes x depths x 4 leaves x hidden or shown; altered statements, commitments, lengths", four::own),
            Scenario::new("own8", "8 children, the same", eight::own),
            Scenario::new("digits", "8 bases x 12 lengths x 14 numbers", digits),
        ],
    }
}
