//! C28: the public constraint building blocks, on values the caller has committed to.
use crate::circ::*;
use crate::f::*;
use crate::g1::{fes, two};
use crate::g2::{hash_ref, perm_ref, pp};
use crate::gadgets::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::bound_check_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::constrain_lc_with_scalar;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::enforce_mimc_2_inputs;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{
    Poseidon_hash_2_constraints, Poseidon_hash_4_constraints, Poseidon_hash_8_constraints, Poseidon_permutation_constraints, SboxType,
};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::vector_product_gadget;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, RandomizedConstraintSystem, Variable, Verifier};
use std::sync::Arc;

/// A linear form over the committed values: (index or None for the constant, coefficient).
pub type Form = Vec<(Option<usize>, Fe)>;

#[derive(Clone)]
pub enum Blk {
    Bits,
    Pos(usize),
    Sum(Vec<usize>, u64),
    Scalar(Form, Fe),
    NonZero,
    Prod(Vec<u64>),
    Bound(u64, u64, usize),
    Mimc([Form; 2], Vec<Fe>, usize, Fe),
    Hash(Vec<Form>, Pp, SboxType, Fe),
    Perm(Vec<Form>, Pp, SboxType, Vec<Fe>),
}

fn eval(f: &Form, v: &[Fe]) -> Fe {
    let mut s = Fe::zero();
    for (i, c) in f {
        s = s + match i {
            Some(i) => c * &v[*i],
            None => c.clone(),
        };
    }
    s
}
fn lc(f: &Form, q: &[AllocatedQuantity]) -> LinearCombination {
    f.iter().map(|(i, c)| (i.map_or(Variable::One(), |i| q[i].variable), c.clone())).collect()
}
fn below(v: &Fe, n: usize) -> bool {
    // key: big endian, 48 bytes wide or as wide as the field elements are written
    let k = key(v);
    let bits = k.len() * 8;
    (0..bits).all(|i| k[k.len() - 1 - i / 8] >> (i % 8) & 1 == 0 || i < n)
}
impl Blk {
    fn show(&self) -> String {
        let form = |f: &Form| f.iter().map(|(i, c)| format!("{}*{}", show(c), i.map_or("1".into(), |i| format!("x{}", i)))).collect::<Vec<_>>().join(" + ");
        match self {
            Blk::Bits => "every value a bit".into(),
            Blk::Pos(n) => format!("every value below 2^{}", n),
            Blk::Sum(ix, s) => format!("sum of values {:?} = {}", ix, s),
            Blk::Scalar(f, s) => format!("{} = {}", form(f), show(s)),
            Blk::NonZero => "second value the inverse of the first".into(),
            Blk::Prod(it) => format!("items {:?} selected", it),
            Blk::Bound(hi, lo, n) => format!("bound {}..{} in {} bits with differences", lo, hi, n),
            Blk::Mimc(f, _, r, o) => format!("mimc({}, {}), {} rounds = {}", form(&f[0]), form(&f[1]), r, show(o)),
            Blk::Hash(f, _, s, o) => format!("poseidon hash {:?} {:?} = {}", s, f.iter().map(form).collect::<Vec<_>>(), show(o)),
            Blk::Perm(f, _, s, _) => format!("poseidon permutation {:?} {:?}", s, f.iter().map(form).collect::<Vec<_>>()),
        }
    }
    /// What the block states about the values.
    fn holds(&self, v: &[Fe]) -> bool {
        match self {
            Blk::Bits => v.iter().all(|x| eq(x, &Fe::zero()) || eq(x, &Fe::one())),
            Blk::Pos(n) => v.iter().all(|x| below(x, *n)),
            Blk::Sum(ix, s) => eq(&eval(&ix.iter().map(|i| (Some(*i), Fe::one())).collect(), v), &fe(*s)),
            Blk::Scalar(f, s) => eq(&eval(f, v), s),
            Blk::NonZero => eq(&(&v[0] * &v[1]), &Fe::one()),
            Blk::Prod(it) => {
                let k = it.len();
                let mut s = Fe::zero();
                for i in 0..k {
                    let t = &fe(it[i]) * &v[i];
                    if !eq(&t, &(&v[i] * &v[k])) {
                        return false;
                    }
                    s = s + t;
                }
                eq(&s, &v[k])
            }
            Blk::Bound(hi, lo, n) => {
                eq(&v[1], &(&v[0] - &fe(*lo))) && eq(&v[2], &(&fe(*hi) - &v[0])) && below(&v[1], *n) && below(&v[2], *n)
            }
            Blk::Mimc(f, c, r, o) => {
                let (mut l, mut x) = (eval(&f[0], v), eval(&f[1], v));
                for i in 0..*r {
                    let t = &l + &c[i];
                    let n = &(&(&t * &t) * &t) + &x;
                    x = l;
                    l = n;
                }
                eq(&l, o)
            }
            Blk::Hash(f, p, s, o) => eq(&hash_ref(&f.iter().map(|f| eval(f, v)).collect::<Vec<_>>(), p, s).0, o),
            Blk::Perm(f, p, s, o) => {
                let w = perm_ref(&f.iter().map(|f| eval(f, v)).collect::<Vec<_>>(), p, s).0;
                w.len() == o.len() && (0..w.len()).all(|i| eq(&w[i], &o[i]))
            }
        }
    }
    fn apply<CS: ConstraintSystem>(&self, cs: &mut CS, q: &[AllocatedQuantity]) -> Result<(), R1CSError> {
        let k = |x: u64| LinearCombination::from(Fe::from(x));
        match self {
            Blk::Bits => {
                for x in q {
                    bit_gadget(cs, x)?;
                }
            }
            Blk::Pos(n) => {
                for x in q {
                    positive_no_gadget(cs, x.clone(), *n)?;
                }
            }
            Blk::Sum(ix, s) => vector_sum_constraints(cs, ix.iter().map(|i| q[*i].variable).collect(), *s)?,
            Blk::Scalar(f, s) => constrain_lc_with_scalar(cs, lc(f, q), s),
            Blk::NonZero => is_nonzero_gadget(cs, q[0].variable, q[1].variable)?,
            Blk::Prod(it) => vector_product_gadget(cs, it, &q[..it.len()], &q[it.len()])?,
            Blk::Bound(hi, lo, n) => bound_check_gadget(cs, q[0].clone(), q[1].clone(), q[2].clone(), *hi, *lo, *n)?,
            Blk::Mimc(f, c, r, o) => {
                let x = enforce_mimc_2_inputs(cs, lc(&f[0], q), lc(&f[1], q), *r, c)?;
                constrain_lc_with_scalar(cs, x, o);
            }
            Blk::Hash(f, p, s, o) => {
                let l: Vec<LinearCombination> = f.iter().map(|f| lc(f, q)).collect();
                let x = match f.len() {
                    2 => {
                        let mut st = vec![k(0), k(101)];
                        st.resize(p.width - 2, k(0));
                        st.truncate(p.width - 2);
                        Poseidon_hash_2_constraints(cs, l[0].clone(), l[1].clone(), st, p, s)?
                    }
                    4 => Poseidon_hash_4_constraints(cs, l, vec![k(0)], p, s)?,
                    _ => Poseidon_hash_8_constraints(cs, l, k(0), p, s)?,
                };
                constrain_lc_with_scalar(cs, x, o);
            }
            Blk::Perm(f, p, s, o) => {
                let x = Poseidon_permutation_constraints(cs, f.iter().map(|f| lc(f, q)).collect(), p, s)?;
                for (x, o) in x.into_iter().zip(o.iter()) {
                    constrain_lc_with_scalar(cs, x, o);
                }
            }
        }
        Ok(())
    }
}

/// How the block gets at the values.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Via {
    Committed,
    /// outputs of multiplication gates
    Gate,
    /// committed, but the block is applied in the second phase
    Late,
}
fn wrap<CS: ConstraintSystem>(cs: &mut CS, q: Vec<AllocatedQuantity>) -> Vec<AllocatedQuantity> {
    q.into_iter()
        .map(|x| {
            let (_, _, o) = cs.multiply(x.variable.into(), Variable::One().into());
            AllocatedQuantity { variable: o, assignment: x.assignment }
        })
        .collect()
}
fn place<CS: ConstraintSystem>(cs: &mut CS, b: &Arc<Blk>, via: Via, q: Vec<AllocatedQuantity>) -> Result<(), R1CSError>
where
    CS::RandomizedCS: ConstraintSystem,
{
    match via {
        Via::Committed => b.apply(cs, &q),
        Via::Gate => {
            let q = wrap(cs, q);
            b.apply(cs, &q)
        }
        Via::Late => {
            let b = b.clone();
            cs.specify_randomized_constraints(move |cs| {
                let _ = cs.challenge_scalar(b"late");
                b.apply(cs, &q)
            })
        }
    }
}
pub fn stmt(b: &Blk, vals: &[Fe], via: Via) -> Stmt {
    let (b1, b2) = (Arc::new(b.clone()), Arc::new(b.clone()));
    let v = vals.to_vec();
    let k = v.len();
    from_parts(
        format!("[{} on {:?}, {:?}]", b.show(), vals.iter().map(show).collect::<Vec<_>>(), via),
        k,
        v.clone().into_iter().enumerate().collect(),
        move |p: &mut Prover, _| {
            let (mut c, mut q) = (vec![], vec![]);
            for (i, x) in v.iter().enumerate() {
                let (a, b) = p.commit(x.clone(), drv("blk", i as u64));
                c.push(a);
                q.push(AllocatedQuantity { variable: b, assignment: Some(x.clone()) });
            }
            place(p, &b1, via, q)?;
            Ok(c)
        },
        move |w: &mut Verifier, c, _| {
            let q = c.into_iter().map(|x| AllocatedQuantity { variable: w.commit(x), assignment: None }).collect();
            place(w, &b2, via, q)
        },
    )
}

struct Item {
    b: Blk,
    v: Vec<Fe>,
    via: Via,
    e2e: bool,
}

fn grid(menu: &[Fe], k: usize) -> Vec<Vec<Fe>> {
    let mut out: Vec<Vec<Fe>> = vec![vec![]];
    for _ in 0..k {
        out = out.iter().flat_map(|l| menu.iter().map(move |x| [l.clone(), vec![x.clone()]].concat())).collect();
    }
    out
}

fn items(ctx: &Ctx) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    let one = Fe::one();
    let neg = fi(-1);
    let half = fe(2).inverse();
    // cases take turns at going through the whole prover and verifier in one of the three ways
    let add = |out: &mut Vec<Item>, b: Blk, v: Vec<Fe>| {
        let n = out.len() / 3;
        out.push(Item { b: b.clone(), v: v.clone(), via: Via::Committed, e2e: ctx.thorough || n % 3 == 0 });
        out.push(Item { b: b.clone(), v: v.clone(), via: Via::Gate, e2e: ctx.thorough || n % 3 == 1 });
        out.push(Item { b, v, via: Via::Late, e2e: ctx.thorough || n % 3 == 2 });
    };
    // bits
    let bm: Vec<Fe> = vec![Fe::zero(), one.clone(), fe(2), neg.clone(), half.clone(), fe(3), two(64), drv("bit", 0)];
    for k in 1..=ctx.b(2, 3) {
        for v in grid(&bm, k) {
            add(&mut out, Blk::Bits, v);
        }
    }
    for k in [5usize, 9] {
        for bad in 0..=k {
            for w in [fe(2), neg.clone()] {
                let mut v: Vec<Fe> = (0..k).map(|i| fe((i % 2) as u64)).collect();
                if bad < k {
                    v[bad] = w;
                }
                add(&mut out, Blk::Bits, v);
            }
        }
    }
    // ranges
    for n in 0..=ctx.b(5usize, 7) {
        for x in 0..(1u64 << n) + 3 {
            add(&mut out, Blk::Pos(n), vec![fe(x)]);
        }
        for x in [neg.clone(), fi(-2), fi(-(1i64 << n)), half.clone(), two(64), two(254), drv("pos", n as u64)] {
            add(&mut out, Blk::Pos(n), vec![x]);
        }
        add(&mut out, Blk::Pos(n), vec![fe((1 << n) - 1), fe(0)]);
        add(&mut out, Blk::Pos(n), vec![fe(0), fe(1 << n)]);
        add(&mut out, Blk::Pos(n), vec![fe(1 << n), fe(0)]);
    }
    for n in [8usize, 16, 31, 32, 33, 57, 58, 59, 62, 63, 64, 65, 127, 128, 200, 252, 253] {
        for v in [two(n) - one.clone(), two(n), two(n - 1), two(n) + one.clone(), neg.clone(), fi(-2), half.clone(), two(n + 1)] {
            add(&mut out, Blk::Pos(n), vec![v]);
        }
    }
    // sums
    for k in 0..=3usize {
        for v in grid(&[Fe::zero(), one.clone(), fe(2), neg.clone()], k) {
            for s in 0..4u64 {
                add(&mut out, Blk::Sum((0..k).collect(), s), v.clone());
            }
        }
    }
    for s in [7u64, 1 << 31, 1 << 32, (1 << 57) + 5, (1 << 58) - 1, 1 << 58, (1 << 58) + 3, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 9, u64::MAX - 1, u64::MAX] {
        for d in [0i64, 1, -1] {
            add(&mut out, Blk::Sum(vec![0, 1], s), vec![fe(s) - fe(5), fe(5) + fi(d)]);
            add(&mut out, Blk::Sum(vec![0], s), vec![fe(s) + fi(d)]);
        }
        for w in [58usize, 63, 64] {
            add(&mut out, Blk::Sum(vec![0], s), vec![fe(s) + two(w)]);
            add(&mut out, Blk::Sum(vec![0], s), vec![fe(s) - two(w)]);
        }
    }
    for ix in [vec![0, 0], vec![0, 1, 0], vec![1, 1, 1, 0], vec![1], vec![]] {
        for v in grid(&[Fe::zero(), one.clone(), fe(2)], 2) {
            for s in 0..=ctx.b(3u64, 6) {
                add(&mut out, Blk::Sum(ix.clone(), s), v.clone());
            }
        }
    }
    for k in [8usize, 17] {
        for s in [k as u64 - 1, k as u64, k as u64 + 1] {
            add(&mut out, Blk::Sum((0..k).collect(), s), vec![one.clone(); k]);
        }
    }
    // linear forms
    let cs: Vec<Fe> = vec![Fe::zero(), one.clone(), neg.clone(), fe(3), half.clone(), drv("coef", 0)];
    let mut forms: Vec<Form> = vec![vec![]];
    for a in &cs {
        for b in &cs {
            forms.push(vec![(Some(0), a.clone()), (Some(1), b.clone())]);
            forms.push(vec![(None, a.clone()), (Some(1), b.clone())]);
            forms.push(vec![(Some(0), a.clone()), (None, fe(5)), (Some(0), b.clone())]);
            forms.push(vec![(None, a.clone()), (None, b.clone())]);
        }
    }
    let long: Form = (0..30).map(|i| (if i % 5 == 4 { None } else { Some(i % 2) }, drv("coef", i as u64))).collect();
    forms.push(long.clone());
    let longf = long;
    let vs: Vec<Vec<Fe>> = vec![fes(&[2, 7]), vec![Fe::zero(), neg.clone()], vec![drv("x", 0), drv("x", 1)]];
    for f in &forms {
        for v in &vs {
            let y = eval(f, v);
            for s in [y.clone(), &y + &one, y.negation(), Fe::zero(), one.clone()] {
                add(&mut out, Blk::Scalar(f.clone(), s), v.clone());
            }
        }
    }
    // inverses
    let nm: Vec<Fe> = vec![Fe::zero(), one.clone(), fe(2), half.clone(), neg.clone(), fi(-2), drv("nz", 0), drv("nz", 0).inverse()];
    for v in grid(&nm, 2) {
        add(&mut out, Blk::NonZero, v);
    }
    // selections
    for it in [vec![3u64], vec![3, 7], vec![0, 3], vec![4, 4], vec![0], vec![u64::MAX, 2]] {
        let k = it.len();
        for bits in grid(&[Fe::zero(), one.clone(), fe(2), half.clone()], k) {
            for w in [fe(it[0]), fe(it[k - 1]), Fe::zero(), fe(6), fe(10), neg.clone()] {
                let mut v = bits.clone();
                v.push(w);
                add(&mut out, Blk::Prod(it.clone()), v);
            }
        }
    }
    for k in [4usize, 5, 9] {
        let it: Vec<u64> = (0..k as u64).map(|i| 10 + 3 * i).collect();
        for j in 0..k {
            let mut v: Vec<Fe> = (0..k).map(|i| fe((i == j) as u64)).collect();
            v.push(fe(it[j]));
            add(&mut out, Blk::Prod(it.clone()), v.clone());
            for i in 0..=k {
                for d in [one.clone(), neg.clone()] {
                    let mut w = v.clone();
                    w[i] = &w[i] + &d;
                    add(&mut out, Blk::Prod(it.clone()), w);
                }
            }
        }
    }
    // bounds with explicit differences
    for (lo, hi, n) in [(2u64, 5u64, 2usize), (0, 3, 2), (3, 3, 1), (4, 9, 2), (1, 6, 4)] {
        for x in 0..11i64 {
            let (a, b) = (fi(x - lo as i64), fi(hi as i64 - x));
            for (da, db) in [(0i64, 0i64), (1, 0), (0, 1), (1, -1), (-1, 1)] {
                add(&mut out, Blk::Bound(hi, lo, n), vec![fi(x), &a + &fi(da), &b + &fi(db)]);
            }
        }
    }
    // hashes over linear forms of the committed values
    let fs: Vec<Form> = vec![
        vec![(Some(0), one.clone())],
        vec![(Some(1), one.clone())],
        vec![(Some(0), fe(2)), (Some(1), neg.clone())],
        vec![(Some(0), one.clone()), (Some(0), one.clone()), (None, fe(4))],
        vec![(None, drv("const", 0))],
        vec![(Some(1), half.clone()), (None, neg.clone()), (Some(0), drv("coef", 3))],
    ];
    let hv: Vec<Vec<Fe>> = vec![fes(&[2, 7]), vec![drv("x", 0), drv("x", 1)]];
    for v in &hv {
        let pairs: Vec<(Form, Form)> = fs.iter().flat_map(|l| fs.iter().map(move |r| (l.clone(), r.clone()))).collect();
        for (n, (l, r)) in pairs.iter().chain([(longf.clone(), fs[0].clone()), (fs[1].clone(), longf.clone()), (longf.clone(), longf.clone())].iter()).enumerate() {
            let mut rs: Vec<usize> = (0..=ctx.b(2usize, 4)).collect();
            if n % 12 == 0 || n >= pairs.len() {
                rs.extend([7, 24, 60]);
            }
            {
                for rounds in rs {
                    let c: Vec<Fe> = (0..rounds).map(|i| drv("mc", i as u64)).collect();
                    let (mut x, mut y) = (eval(l, v), eval(r, v));
                    for i in 0..rounds {
                        let t = &x + &c[i];
                        let n = &(&(&t * &t) * &t) + &y;
                        y = x;
                        x = n;
                    }
                    for o in [x.clone(), &x + &one, y.clone()] {
                        add(&mut out, Blk::Mimc([l.clone(), r.clone()], c.clone(), rounds, o), v.clone());
                    }
                }
            }
        }
        for (w, k) in [(3usize, 2usize), (5, 4), (9, 8)] {
            for (b, e, p) in [(1usize, 0usize, 0usize), (0, 1, 1), (1, 1, 1)] {
                let q = pp(w, b, e, p);
                for sb in [SboxType::Cube, SboxType::Quint, SboxType::Inverse] {
                    for sh in 0..ctx.b(2, fs.len()) {
                        let mut f: Vec<Form> = (0..k).map(|i| fs[(i + sh) % fs.len()].clone()).collect();
                        if sh == 1 {
                            f[k - 1] = longf.clone();
                        }
                        let ev: Vec<Fe> = f.iter().map(|f| eval(f, v)).collect();
                        let (h, ok) = hash_ref(&ev, &q, &sb);
                        if ok {
                            for o in [h.clone(), &h + &one] {
                                add(&mut out, Blk::Hash(f.clone(), q.clone(), sb, o), v.clone());
                            }
                        }
                        let f: Vec<Form> = (0..w).map(|i| fs[(i + sh) % fs.len()].clone()).collect();
                        let ev: Vec<Fe> = f.iter().map(|f| eval(f, v)).collect();
                        let (h, ok) = perm_ref(&ev, &q, &sb);
                        if ok {
                            add(&mut out, Blk::Perm(f.clone(), q.clone(), sb, h.clone()), v.clone());
                            for bad in 0..w {
                                let mut h = h.clone();
                                h[bad] = &h[bad] + &one;
                                add(&mut out, Blk::Perm(f.clone(), q.clone(), sb, h), v.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn c28(ctx: &Ctx) {
    let it = items(ctx);
    ctx.par("building blocks on committed values and gate outputs", &it, |i| {
        if i.via == Via::Late {
            return;
        }
        let s = stmt(&i.b, &i.v, i.via);
        if i.b.holds(&i.v) {
            provable(ctx, "block", &s, &[], i.e2e);
        } else {
            unprovable(ctx, "block", &s, &[]);
        }
    });
    ctx.par("building blocks end to end, in either phase", &it, |i| {
        if !i.e2e {
            return;
        }
        let s = stmt(&i.b, &i.v, i.via);
        let ng = match i.b {
            Blk::Pos(n) => (n * i.v.len() + i.v.len()).max(1).next_power_of_two().max(8),
            Blk::Perm(..) | Blk::Hash(..) => 256,
            Blk::Bits => 32,
            Blk::Bound(..) => 16,
            _ => 128,
        };
        let r = given(1);
        if i.b.holds(&i.v) {
            honest_true(ctx, "block-proof", &s, ng, &r);
        } else {
            honest_false(ctx, "block-proof", &s, ng, &r);
        }
    });
    // fewer constants than rounds
    ctx.par("missing constants", &[0usize, 1, 2], |k| {
        for rounds in k + 1..k + 3 {
            ctx.st(1);
            let c: Vec<Fe> = (0..*k).map(|i| drv("mc", i as u64)).collect();
            let f: Form = vec![(Some(0), Fe::one())];
            let b = Blk::Mimc([f.clone(), f], c, rounds, fe(1));
            let r = guard(|| {
                let mut t = merlin::Transcript::new(GL);
                let mut v = Verifier::new(&mut t);
                let q = vec![AllocatedQuantity { variable: v.commit(ident()), assignment: None }];
                b.apply(&mut v, &q)
            });
            ctx.check(matches!(r, Ok(Err(_))), "block-constants", || format!("{} rounds of MiMC with {} constants: {:?}, expected an error", rounds, k, r));
        }
    });
    // without assignments the prover refuses to build a block that needs them
    let bl: Vec<(Blk, usize)> = vec![(Blk::Bits, 1), (Blk::Pos(3), 1), (Blk::Prod(vec![3, 7]), 3), (Blk::Bound(5, 2, 3), 3)];
    ctx.par("missing assignments", &bl, |(b, k)| {
        ctx.st(1);
        let r = guard(|| {
            let g = gens(1);
            let mut t = merlin::Transcript::new(GL);
            let mut p = Prover::new(&g.g, &g.h, &mut t);
            let q: Vec<AllocatedQuantity> =
                (0..*k).map(|i| AllocatedQuantity { variable: p.commit(fe(1), drv("blk", i as u64)).1, assignment: None }).collect();
            b.apply(&mut p, &q)
        });
        ctx.check(matches!(r, Ok(Err(R1CSError::MissingAssignment))), "block-missing", || {
            format!("{} without assignments on the prover: {:?}, expected MissingAssignment", b.show(), r)
        });
    });
}
