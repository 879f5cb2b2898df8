//! Operation programs over constraint systems: explicit model, interpreter on any ConstraintSystem,
//! and drivers for the real prover/verifier and the reference implementation.
use crate::f::*;
use crate::refimpl::*;
use crate::rt::guard;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination as LC, Variable as Var};
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, RandomizedConstraintSystem, Verifier};
use merlin::Transcript;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Commit,
    Mul(u8),
    Alloc,
    Single,
    Pair,
    /// constraint; kinds >= 100 are violated ones
    Con(u8),
    /// draw a challenge and use it in a gate and a constraint
    Chal,
    Rand(Vec<Op>),
    /// callback/step returning an error
    Fail(u8),
    /// allocation with no assignment (prover must report MissingAssignment, verifier proceeds)
    MissAlloc,
    MissPair,
}
pub fn fail_err(k: u8) -> R1CSError {
    match k {
        0 => R1CSError::GadgetError { description: "mc-fail".into() },
        1 => R1CSError::MissingAssignment,
        2 => R1CSError::FormatError,
        3 => R1CSError::HashNotFoundInDB { hash: vec![1, 2, 3] },
        4 => R1CSError::InvalidGeneratorsLength,
        _ => R1CSError::VerificationError,
    }
}
pub fn is_bad(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Con(k) => *k >= 100,
        Op::Rand(b) => is_bad(b),
        _ => false,
    })
}
pub fn has_fail(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Fail(_) => true,
        Op::Rand(b) => has_fail(b),
        _ => false,
    })
}

pub const NPROF: u8 = 6;
/// i-th witness value of a value profile
pub fn pval(profile: u8, i: usize) -> Fe {
    match profile {
        0 => fe(i as u64 + 2),
        1 => fe((i % 2) as u64),
        2 => match i % 4 {
            0 => Fe::minus_one(),
            1 => Fe::zero(),
            2 => fe(u64::MAX),
            _ => fe(1).negation() * fe(1 << 40),
        },
        3 => drv("p3", i as u64),
        // all alike and not their own product: both inputs of every gate are equal
        5 => fe(3),
        _ => Fe::zero(),
    }
}

/// Model of one side of the constraint system.
pub struct Exec {
    pub is_prover: bool,
    pub profile: u8,
    pub next: usize,
    pub v: Vec<Fe>,
    pub l: Vec<Fe>,
    pub r: Vec<Fe>,
    pub o: Vec<Fe>,
    pub pending: Option<usize>,
    pub vars: Vec<(Var, Fe)>,
    pub cons: Vec<LC>,
    pub n1: Option<usize>,
    pub handles: Vec<Var>,
    pub order: Vec<usize>,
    pub chals: Vec<Fe>,
    pub problems: Vec<String>,
    pub ncb: usize,
    pub in_phase2: bool,
    /// number of transcript-phase markers: callback ids registered in order
    pub registered: Vec<usize>,
    pub steps: u64,
    /// pass assignments on the verifier's side too (it must ignore them)
    pub give: bool,
}
thread_local! { pub static GIVE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub type St = Rc<RefCell<Exec>>;

impl Exec {
    pub fn new(is_prover: bool, profile: u8) -> St {
        Rc::new(RefCell::new(Exec {
            is_prover,
            profile,
            next: 0,
            v: vec![],
            l: vec![],
            r: vec![],
            o: vec![],
            pending: None,
            vars: vec![],
            cons: vec![],
            n1: None,
            handles: vec![],
            order: vec![],
            chals: vec![],
            problems: vec![],
            ncb: 0,
            in_phase2: false,
            registered: vec![],
            steps: 0,
            give: GIVE.with(|g| g.get()),
        }))
    }
    fn take(&mut self) -> Fe {
        let x = pval(self.profile, self.next);
        self.next += 1;
        x
    }
    pub fn value(&self, v: &Var) -> Fe {
        match v {
            Var::Committed(i) => self.v[*i].clone(),
            Var::MultiplierLeft(i) => self.l[*i].clone(),
            Var::MultiplierRight(i) => self.r[*i].clone(),
            Var::MultiplierOutput(i) => self.o[*i].clone(),
            Var::One() => Fe::one(),
        }
    }
    pub fn eval(&self, lc: &LC) -> Fe {
        lc.terms.iter().fold(Fe::zero(), |s, (v, c)| s + c * self.value(v))
    }
    fn see(&mut self, got: Var, want: Var, what: &str) {
        self.handles.push(got);
        if got != want {
            self.problems.push(format!("{}: handle {:?}, expected {:?}", what, got, want));
        }
        let val = self.value(&want);
        self.vars.push((got, val));
    }
    fn gate(&mut self, l: Fe, r: Fe) -> usize {
        self.o.push(&l * &r);
        self.l.push(l);
        self.r.push(r);
        self.l.len() - 1
    }
    fn last(&self, k: usize) -> (Var, Fe) {
        if self.vars.is_empty() {
            (Var::One(), Fe::one())
        } else {
            // value re-read from the model: outputs of a half-allocated pair change later
            let v = self.vars[self.vars.len() - 1 - (k % self.vars.len())].0;
            let x = self.value(&v);
            (v, x)
        }
    }
    pub fn sum_all(&self) -> LC {
        let mut lc = LC::default();
        for (i, (v, _)) in self.vars.iter().enumerate() {
            // coefficients include zero, repeated variables and negatives
            lc.terms.push((*v, fi((i as i64 % 5) - 1)));
            if i % 3 == 0 {
                lc.terms.push((*v, fe(7)));
            }
        }
        lc
    }
    pub fn constraint(&self, kind: u8) -> LC {
        let (a, av) = self.last(0);
        let (b, bv) = self.last(1);
        let off = match kind / 100 {
            0 => 0,
            1 => 1,
            _ => -1,
        };
        match kind % 100 {
            0 => LC::from(a) - LC::from(av + fi(off)),
            1 => {
                let s = self.sum_all();
                let v = self.eval(&s);
                s - LC::from(v + fi(off))
            }
            2 => {
                if off == 0 {
                    LC::default()
                } else {
                    LC::from(fi(off))
                }
            }
            3 => fe(3) * LC::from(a) - (fe(3) * LC::from(b)) - LC::from((av - bv) * fe(3) + fi(off)),
            4 => LC::from(a) - LC::from(a) + LC::from(fi(off)),
            _ => {
                // constant terms split over two One() entries
                LC::from(av.clone()) - LC::from(a) + LC::from(fe(5)) - LC::from(fe(5) - fi(off))
            }
        }
    }
}

fn alloc_model(s: &mut Exec, got: Result<(Var, Option<Option<Var>>), R1CSError>, val: Fe, what: &str) -> Result<(), R1CSError> {
    let (got, extra) = got?;
    let want = match s.pending {
        None => {
            let i = s.gate(val, Fe::zero());
            s.pending = Some(i);
            if let Some(x) = extra {
                if x.is_some() {
                    s.problems.push(format!("{}: output variable on the left half", what));
                }
            }
            Var::MultiplierLeft(i)
        }
        Some(i) => {
            s.r[i] = val;
            s.o[i] = &s.l[i] * &s.r[i];
            s.pending = None;
            if let Some(x) = extra {
                if x != Some(Var::MultiplierOutput(i)) {
                    s.problems.push(format!("{}: output {:?}, expected MultiplierOutput({})", what, x, i));
                }
            }
            Var::MultiplierRight(i)
        }
    };
    s.see(got, want, what);
    if let Var::MultiplierRight(i) = want {
        if extra.is_some() {
            let o = s.o[i].clone();
            s.vars.push((Var::MultiplierOutput(i), o));
        }
    }
    Ok(())
}

pub fn check_eval<C: ConstraintSystem>(cs: &C, st: &St, lc: &LC) {
    let mut s = st.borrow_mut();
    match (cs.evaluate_lc(lc), s.is_prover) {
        (Some(x), true) => {
            if !eq(&x, &s.eval(lc)) {
                let w = show(&s.eval(lc));
                s.problems.push(format!("evaluate_lc gives {}, expected {}", show(&x), w));
            }
        }
        (None, false) => {}
        (x, p) => s.problems.push(format!("evaluate_lc returned {:?} on the {} side", x.is_some(), if p { "prover" } else { "verifier" })),
    }
}

/// Runs one operation common to both phases.
fn step<C: ConstraintSystem>(cs: &mut C, op: &Op, st: &St) -> Result<(), R1CSError> {
    let p = st.borrow().is_prover;
    let given = p || st.borrow().give;
    let some = |x: &Fe| if given { Some(x.clone()) } else { None };
    match op {
        Op::Mul(k) => {
            let (l, r) = {
                let s = st.borrow();
                let (a, _) = s.last(0);
                let (b, _) = s.last(1);
                match k % 10 {
                    8 => (LC::from(a), LC::default()),
                    9 => (LC::default(), LC::default()),
                    0 => (LC::from(a), LC::from(b)),
                    // squares, a shared many-term combination, the same variable on both sides with other coefficients
                    4 => (LC::from(a), LC::from(a)),
                    5 => (a + LC::from(b) - fe(4), a + LC::from(b) - fe(4)),
                    6 => (s.sum_all() + fe(1), s.sum_all() - LC::from(a)),
                    7 => (fe(0) * LC::from(a) + a, LC::from(a) - a + Fe::one()),
                    1 => (fe(2) * LC::from(a) + fe(3) - b, a + LC::from(a)),
                    2 => (LC::default(), LC::from(a)),
                    _ => (LC::from(fe(6)), LC::from(fi(-7))),
                }
            };
            check_eval(cs, st, &l);
            check_eval(cs, st, &r);
            let (a, b, o) = cs.multiply(l.clone(), r.clone());
            let mut s = st.borrow_mut();
            let (lv, rv) = (s.eval(&l), s.eval(&r));
            let i = s.gate(lv, rv);
            s.see(a, Var::MultiplierLeft(i), "multiply");
            s.see(b, Var::MultiplierRight(i), "multiply");
            s.see(o, Var::MultiplierOutput(i), "multiply");
            let mut l = l;
            let mut r = r;
            l.terms.push((Var::MultiplierLeft(i), Fe::minus_one()));
            r.terms.push((Var::MultiplierRight(i), Fe::minus_one()));
            s.cons.push(l);
            s.cons.push(r);
        }
        Op::Alloc => {
            let val = st.borrow_mut().take();
            let got = cs.allocate(some(&val)).map(|v| (v, None));
            alloc_model(&mut st.borrow_mut(), got, val, "allocate")?;
        }
        Op::Single => {
            let val = st.borrow_mut().take();
            let got = cs.allocate_single(some(&val)).map(|(v, o)| (v, Some(o)));
            alloc_model(&mut st.borrow_mut(), got, val, "allocate_single")?;
        }
        Op::Pair => {
            let (x, y) = {
                let mut s = st.borrow_mut();
                (s.take(), s.take())
            };
            let (a, b, o) = cs.allocate_multiplier(if given { Some((x.clone(), y.clone())) } else { None })?;
            let mut s = st.borrow_mut();
            let i = s.gate(x, y);
            s.see(a, Var::MultiplierLeft(i), "allocate_multiplier");
            s.see(b, Var::MultiplierRight(i), "allocate_multiplier");
            s.see(o, Var::MultiplierOutput(i), "allocate_multiplier");
        }
        Op::Con(k) => {
            let lc = st.borrow().constraint(*k);
            check_eval(cs, st, &lc);
            cs.constrain(lc.clone());
            st.borrow_mut().cons.push(lc);
        }
        Op::Fail(k) => return Err(fail_err(*k)),
        Op::MissAlloc => {
            if p {
                // must fail and change nothing: later handles are compared with the model
                for _ in 0..2 {
                    match cs.allocate(None) {
                        Err(R1CSError::MissingAssignment) => {}
                        x => st.borrow_mut().problems.push(format!("allocate(None) on prover: {:?}", x)),
                    }
                    match cs.allocate_single(None) {
                        Err(R1CSError::MissingAssignment) => {}
                        x => st.borrow_mut().problems.push(format!("allocate_single(None) on prover: {:?}", x)),
                    }
                }
            }
        }
        Op::MissPair => {
            if p {
                match cs.allocate_multiplier(None) {
                    Err(R1CSError::MissingAssignment) => {}
                    x => st.borrow_mut().problems.push(format!("allocate_multiplier(None) on prover: {:?}", x)),
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn register<C: ConstraintSystem>(cs: &mut C, body: &[Op], st: &St) -> Result<(), R1CSError> {
    let id = {
        let mut s = st.borrow_mut();
        s.ncb += 1;
        let id = s.ncb;
        s.registered.push(id);
        id
    };
    let (b, s2) = (body.to_vec(), st.clone());
    let before = st.borrow().order.len();
    let nested = st.borrow().in_phase2;
    let r = cs.specify_randomized_constraints(move |rcs| run_rand(rcs, &b, &s2, id));
    let mut s = st.borrow_mut();
    if !nested && s.order.len() != before {
        s.problems.push(format!("callback {} ran at registration in phase one", id));
    }
    if nested && r.is_ok() && !s.order[before..].contains(&id) {
        s.problems.push(format!("nested callback {} did not run immediately", id));
    }
    r
}

fn run_rand<C: RandomizedConstraintSystem>(cs: &mut C, body: &[Op], st: &St, id: usize) -> Result<(), R1CSError> {
    {
        let mut s = st.borrow_mut();
        if !s.in_phase2 {
            // first callback of phase two: everything before belongs to phase one
            s.in_phase2 = true;
            s.n1 = Some(s.l.len());
            s.pending = None;
        }
        if s.order.contains(&id) {
            s.problems.push(format!("callback {} ran twice", id));
        }
        s.order.push(id);
    }
    for op in body {
        st.borrow_mut().steps += 1;
        match op {
            Op::Rand(b) => register(cs, b, st)?,
            Op::Chal => {
                let c = cs.challenge_scalar(b"mc challenge");
                st.borrow_mut().chals.push(c.clone());
                let (l, r, con) = {
                    let s = st.borrow();
                    let (a, av) = s.last(0);
                    let (b, _) = s.last(1);
                    (LC::from(a) + LC::from(c.clone()), LC::from(b) - LC::from(c.clone()), c.clone() * LC::from(a) - LC::from(&c * &av))
                };
                let (a, b, o) = cs.multiply(l.clone(), r.clone());
                let mut s = st.borrow_mut();
                let (lv, rv) = (s.eval(&l), s.eval(&r));
                let i = s.gate(lv, rv);
                s.see(a, Var::MultiplierLeft(i), "multiply");
                s.see(b, Var::MultiplierRight(i), "multiply");
                s.see(o, Var::MultiplierOutput(i), "multiply");
                drop(s);
                cs.constrain(con);
            }
            op => step(cs, op, st)?,
        }
    }
    Ok(())
}

/// A constraint system that can take commitments in phase one.
pub trait Top: ConstraintSystem {
    fn commit_next(&mut self, v: &Fe, b: &Fe, comms: &mut Vec<G1>, i: usize) -> Var;
}
impl<'a, 'b> Top for Prover<'a, 'b> {
    fn commit_next(&mut self, v: &Fe, b: &Fe, comms: &mut Vec<G1>, _: usize) -> Var {
        let (c, var) = self.commit(v.clone(), b.clone());
        comms.push(c);
        var
    }
}
impl<'a> Top for Verifier<'a> {
    fn commit_next(&mut self, _: &Fe, _: &Fe, comms: &mut Vec<G1>, i: usize) -> Var {
        self.commit(comms[i].clone())
    }
}
impl Top for RefCs {
    fn commit_next(&mut self, v: &Fe, b: &Fe, comms: &mut Vec<G1>, i: usize) -> Var {
        if self.verifier {
            self.commit_v(comms[i].clone())
        } else {
            let (c, var) = self.commit_p(&gens(1), v.clone(), b.clone());
            comms.push(c);
            var
        }
    }
}

pub fn blind(i: usize) -> Fe {
    drv("blind", i as u64)
}

pub fn run_top<C: Top>(cs: &mut C, ops: &[Op], st: &St, comms: &mut Vec<G1>) -> Result<(), R1CSError> {
    for op in ops {
        st.borrow_mut().steps += 1;
        match op {
            Op::Commit => {
                let (val, i) = {
                    let mut s = st.borrow_mut();
                    (s.take(), s.v.len())
                };
                let var = cs.commit_next(&val, &blind(i), comms, i);
                let mut s = st.borrow_mut();
                s.v.push(val);
                s.see(var, Var::Committed(i), "commit");
            }
            Op::Rand(b) => register(cs, b, st)?,
            Op::Chal => {}
            op => step(cs, op, st)?,
        }
    }
    Ok(())
}
/// to be called when building is over (model side of the end of phase two)
fn close(st: &St) -> (Vec<usize>, Vec<usize>) {
    let s = st.borrow();
    (s.registered.clone(), s.order.clone())
}

pub struct Made {
    pub proof: R1CSProof,
    pub comms: Vec<G1>,
    pub st: St,
}
pub const LABEL: &[u8] = b"mc";

fn check_order(st: &St) {
    let (reg, ord) = close(st);
    let mut s = st.borrow_mut();
    let mut o = ord.clone();
    o.sort();
    let mut r = reg.clone();
    r.sort();
    if o != r {
        s.problems.push(format!("callbacks registered {:?}, run {:?}", reg, ord));
    }
}

/// Top-level callbacks must run in registration order.
pub fn top_order_ok(ops: &[Op], st: &St) -> bool {
    let n = ops.iter().filter(|o| matches!(o, Op::Rand(_))).count();
    let s = st.borrow();
    let got: Vec<usize> = s.order.iter().filter(|i| **i <= n).cloned().collect();
    got == (1..=n).collect::<Vec<_>>()
}

/// Real prover.
pub fn real_prove(ops: &[Op], profile: u8, gens: &Gens) -> Result<Result<Made, (R1CSError, St)>, String> {
    let st = Exec::new(true, profile);
    let st2 = st.clone();
    guard(move || {
        let mut comms = vec![];
        let mut t = Transcript::new(LABEL);
        let mut p = Prover::new(&gens.g, &gens.h, &mut t);
        if let Err(e) = run_top(&mut p, ops, &st2, &mut comms) {
            return Err((e, st2.clone()));
        }
        match p.prove(&gens.G, &gens.H) {
            Ok(proof) => {
                check_order(&st2);
                Ok(Made { proof, comms, st: st2.clone() })
            }
            Err(e) => Err((e, st2.clone())),
        }
    })
}
/// Real verifier.
pub fn real_verify(ops: &[Op], profile: u8, gens: &Gens, proof: &R1CSProof, comms: &[G1], label: &'static [u8]) -> Result<(Result<(), R1CSError>, St), String> {
    let st = Exec::new(false, profile);
    let st2 = st.clone();
    let r = guard(move || {
        let mut comms = comms.to_vec();
        let mut t = Transcript::new(label);
        let mut v = Verifier::new(&mut t);
        run_top(&mut v, ops, &st2, &mut comms)?;
        v.verify(proof, &gens.g, &gens.h, &gens.G, &gens.H)
    })?;
    if r.is_ok() {
        check_order(&st);
    }
    Ok((r, st))
}
pub fn ref_prove(ops: &[Op], profile: u8, gens: &Gens, tamper: Option<Tamper>) -> Result<(RefProof, Vec<G1>, RefCs), R1CSError> {
    let st = Exec::new(true, profile);
    let mut comms = vec![];
    let mut p = RefCs::new(LABEL, false);
    run_top(&mut p, ops, &st, &mut comms)?;
    p.tamper = tamper;
    let (pf, cs) = p.prove(gens)?;
    Ok((pf, comms, cs))
}
pub fn ref_verify(ops: &[Op], profile: u8, gens: &Gens, proof: &RefProof, comms: &[G1], label: &'static [u8]) -> Result<bool, R1CSError> {
    let st = Exec::new(false, profile);
    let mut comms = comms.to_vec();
    let mut v = RefCs::new(label, true);
    run_top(&mut v, ops, &st, &mut comms)?;
    v.verify(gens, proof)
}

/// All sequences over `alpha` of length 0..=depth.
pub fn seqs(alpha: &[Op], depth: usize) -> Vec<Vec<Op>> {
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut cur: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..depth {
        let mut nx = vec![];
        for c in &cur {
            for a in alpha {
                let mut v = c.clone();
                v.push(a.clone());
                nx.push(v);
            }
        }
        all.extend(nx.iter().cloned());
        cur = nx;
    }
    all
}
pub fn bodies() -> Vec<Op> {
    vec![
        Op::Rand(vec![]),
        Op::Rand(vec![Op::Con(1)]),
        Op::Rand(vec![Op::Chal, Op::Alloc]),
        Op::Rand(vec![Op::Pair, Op::Rand(vec![Op::Single, Op::Chal, Op::Con(1)])]),
    ]
}
pub fn alphabet() -> Vec<Op> {
    let mut a = vec![Op::Commit, Op::Mul(0), Op::Mul(1), Op::Alloc, Op::Single, Op::Pair, Op::Con(1), Op::Con(0)];
    a.extend(bodies());
    a
}
/// circuit with n1 phase-one gates, n2 phase-two gates, m commitments and a satisfied constraint after each
pub fn sized(n1: usize, n2: usize, m: usize) -> Vec<Op> {
    let mut ops = vec![Op::Commit; m];
    for i in 0..n1 {
        ops.push(match i % 3 {
            0 => Op::Pair,
            1 => Op::Mul(1),
            _ => Op::Mul(0),
        });
        ops.push(Op::Con(if i % 4 == 3 { 1 } else { 3 }));
    }
    if n1 == 0 && m > 0 {
        ops.push(Op::Con(1));
    }
    if n2 > 0 {
        let mut b = vec![];
        for i in 0..n2 {
            b.push(match i % 3 {
                0 => Op::Chal,
                1 => Op::Pair,
                _ => Op::Mul(0),
            });
            b.push(Op::Con(3));
        }
        ops.push(Op::Rand(b));
    }
    ops
}
pub fn npad(ops: &[Op]) -> usize {
    gates(ops).next_power_of_two()
}
/// number of gates of a program
pub fn gates(ops: &[Op]) -> usize {
    fn ph(ops: &[Op], pend: &mut bool, n: &mut usize, late: &mut Vec<Vec<Op>>, p2: bool) {
        for o in ops {
            match o {
                Op::Mul(_) | Op::Pair => *n += 1,
                Op::Chal => {
                    if p2 {
                        *n += 1
                    }
                }
                Op::Alloc | Op::Single => {
                    if *pend {
                        *pend = false
                    } else {
                        *pend = true;
                        *n += 1
                    }
                }
                Op::Rand(b) => {
                    if p2 {
                        ph(b, pend, n, late, true)
                    } else {
                        late.push(b.clone())
                    }
                }
                _ => {}
            }
        }
    }
    let (mut n, mut pend, mut late) = (0, false, vec![]);
    ph(ops, &mut pend, &mut n, &mut late, false);
    pend = false;
    let mut none = vec![];
    for b in late {
        ph(&b, &mut pend, &mut n, &mut none, true);
    }
    n
}
