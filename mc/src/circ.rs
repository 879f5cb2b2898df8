//! Circuits extracted from the library's verifier, and an explicit-state search over their
//! assignments: given some fixed variables, is there any satisfying assignment of the rest?
//!
//! The search is depth-first over partial assignments. Deterministic rules (unit propagation,
//! gates with a known factor, linked variables, bounded sums of binary variables) never cut off a
//! solution; branches are over the complete set of alternatives, except that a variable nothing else
//! constrains is branched over a finite menu (counted as `menu`).
use crate::f::*;
use crate::refimpl::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination as LC, Variable as Var};
use bulletproofs_amcl::r1cs::{Prover, Verifier};
use merlin::Transcript;
use std::collections::BTreeMap;

pub type V = usize;

#[derive(Clone, Debug)]
pub struct Row {
    pub t: Vec<(V, Fe)>,
    pub c: Fe,
}

#[derive(Clone)]
pub struct Circ {
    pub m: usize,
    pub n: usize,
    pub cons: Vec<LC>,
    pub rows: Vec<Row>,
    /// commitments in the order the verifier made them
    pub comms: Vec<G1>,
    /// extra variables standing for public values
    pub extra: usize,
}

impl Circ {
    pub fn id(m: usize, v: &Var) -> Option<V> {
        match v {
            Var::Committed(i) => Some(*i),
            Var::MultiplierLeft(i) => Some(m + 3 * i),
            Var::MultiplierRight(i) => Some(m + 3 * i + 1),
            Var::MultiplierOutput(i) => Some(m + 3 * i + 2),
            Var::One() => None,
        }
    }
    pub fn nv(&self) -> usize {
        self.m + 3 * self.n + self.extra
    }
    fn row(m: usize, lc: &LC) -> Row {
        let mut t: BTreeMap<V, Fe> = BTreeMap::new();
        let mut c = Fe::zero();
        for (v, k) in &lc.terms {
            match Self::id(m, v) {
                None => c = c + k,
                Some(i) => {
                    let e = t.entry(i).or_insert_with(Fe::zero);
                    *e = &*e + k;
                }
            }
        }
        Row { t: t.into_iter().filter(|(_, k)| !k.is_zero()).collect(), c }
    }
    pub fn of(cons: Vec<LC>, n: usize, comms: Vec<G1>) -> Circ {
        let m = comms.len();
        let rows = cons.iter().map(|c| Self::row(m, c)).collect();
        Circ { m, n, cons, rows, comms, extra: 0 }
    }
    pub fn holds(&self, a: &[Fe]) -> bool {
        self.rows.iter().all(|r| r.t.iter().fold(r.c.clone(), |s, (v, k)| s + &a[*v] * k).is_zero())
            && (0..self.n).all(|i| eq(&(&a[self.m + 3 * i] * &a[self.m + 3 * i + 1]), &a[self.m + 3 * i + 2]))
    }
    /// Makes a public value a variable: `at(x)` extracts the circuit for the public value x; the
    /// circuit must be affine in it (checked at a third point). Returns the circuit and the variable.
    pub fn with_public(at: &dyn Fn(&Fe) -> Result<Circ, R1CSError>) -> Result<Option<(Circ, V)>, R1CSError> {
        let xs = [fe(3), fe(8), fe(17)];
        let (a, b, c) = (at(&xs[0])?, at(&xs[1])?, at(&xs[2])?);
        if a.n != b.n || a.m != b.m || a.rows.len() != b.rows.len() || c.n != a.n || c.rows.len() != a.rows.len() || c.m != a.m {
            return Ok(None);
        }
        let mut out = a.clone();
        out.extra = 1;
        let x = a.nv();
        let d = (&xs[1] - &xs[0]).inverse();
        for i in 0..a.rows.len() {
            if !same_terms(&a.rows[i], &b.rows[i]) || !same_terms(&a.rows[i], &c.rows[i]) {
                return Ok(None);
            }
            let s = (&b.rows[i].c - &a.rows[i].c) * &d;
            if !eq(&(&a.rows[i].c + &s * (&xs[2] - &xs[0])), &c.rows[i].c) {
                return Ok(None);
            }
            if !s.is_zero() {
                out.rows[i].c = &a.rows[i].c - &s * &xs[0];
                out.rows[i].t.push((x, s));
            }
        }
        Ok(Some((out, x)))
    }
}
impl Circ {
    /// Is `d` this circuit with the public value `x` (see `with_public`) set to `y`?
    pub fn is_at(&self, x: V, y: &Fe, d: &Circ) -> bool {
        self.n == d.n
            && self.m == d.m
            && self.rows.len() == d.rows.len()
            && self.rows.iter().zip(&d.rows).all(|(r, q)| {
                let mut r = r.clone();
                if r.t.last().map_or(false, |t| t.0 == x) {
                    let (_, k) = r.t.pop().unwrap();
                    r.c = r.c + k * y;
                }
                same_terms(&r, q) && eq(&r.c, &q.c)
            })
    }
}
fn same_terms(a: &Row, b: &Row) -> bool {
    a.t.len() == b.t.len() && a.t.iter().zip(&b.t).all(|((v, k), (w, l))| v == w && eq(k, l))
}

/// Distinct stand-in commitments for extraction.
pub fn stand_ins(k: usize) -> Vec<G1> {
    let g = gens(1);
    let mut v = Vec::with_capacity(k);
    let mut p = &g.g * &fe(7) + &g.h;
    for _ in 0..k {
        v.push(p.clone());
        p = &p + &g.h;
    }
    v
}

/// The circuit that `f` builds on the library's verifier.
#[cfg(mc_hooks)]
pub fn extract(f: &dyn Fn(&mut Verifier) -> Result<(), R1CSError>) -> Result<Circ, R1CSError> {
    let mut t = Transcript::new(b"x");
    let mut v = Verifier::new(&mut t);
    f(&mut v)?;
    let (cons, n, comms) = v.mc_view();
    Ok(Circ::of(cons, n, comms))
}
#[cfg(mc_hooks)]
pub const HOOKS: bool = true;
#[cfg(not(mc_hooks))]
pub const HOOKS: bool = false;
#[cfg(not(mc_hooks))]
pub fn extract(_f: &dyn Fn(&mut Verifier) -> Result<(), R1CSError>) -> Result<Circ, R1CSError> {
    unreachable!("needs mc_hooks")
}

/// The circuit and the wire values the library's prover ends up with.
#[cfg(mc_hooks)]
pub fn extract_prover(f: &dyn Fn(&mut Prover) -> Result<Vec<G1>, R1CSError>) -> Result<(Circ, Vec<Fe>, Vec<Fe>, Vec<G1>), R1CSError> {
    let g = gens(1);
    let mut t = Transcript::new(b"x");
    let mut p = Prover::new(&g.g, &g.h, &mut t);
    let comms = f(&mut p)?;
    let (cons, w) = p.mc_view();
    let n = w[0].len();
    let m = w[3].len();
    let pts: Vec<G1> = (0..m).map(|i| ped(&g.g, &g.h, &w[3][i], &w[4][i])).collect();
    let c = Circ::of(cons, n, pts);
    let mut a: Vec<Fe> = (0..m).map(|i| w[3][i].clone()).collect();
    for i in 0..n {
        a.push(w[0][i].clone());
        a.push(w[1][i].clone());
        a.push(w[2][i].clone());
    }
    let bl = (0..m).map(|i| w[4][i].clone()).collect();
    Ok((c, a, bl, comms))
}
#[cfg(not(mc_hooks))]
pub fn extract_prover(_f: &dyn Fn(&mut Prover) -> Result<Vec<G1>, R1CSError>) -> Result<(Circ, Vec<Fe>, Vec<Fe>, Vec<G1>), R1CSError> {
    unreachable!("needs mc_hooks")
}

/// Runs the independent prover on a circuit with the given wire values (which may violate it).
pub fn forge(c: &Circ, a: &[Fe], blind: &[Fe], gens_: &Gens, label: &'static [u8]) -> (RefProof, Vec<G1>) {
    let mut cs = RefCs::new(label, false);
    for i in 0..c.m {
        // a commitment the verifier makes itself (with blinding zero) is absorbed as the verifier's own
        // point: the identity has more than one encoding in the dependency
        let p = ped(&gens_.g, &gens_.h, &a[i], &blind[i]);
        let p = if blind[i].is_zero() && peq(&p, &c.comms[i]) { c.comms[i].clone() } else { p };
        cs.commit_v(p);
        cs.v.push(a[i].clone());
        cs.vb.push(blind[i].clone());
    }
    let comms = cs.comms.clone();
    cs.n = c.n;
    for i in 0..c.n {
        cs.l.push(a[c.m + 3 * i].clone());
        cs.r.push(a[c.m + 3 * i + 1].clone());
        cs.o.push(a[c.m + 3 * i + 2].clone());
    }
    cs.cons = c.cons.clone();
    let (p, _) = cs.prove(gens_).expect("reference prover");
    (p, comms)
}

// ---------------------------------------------------------------- search

fn pow_be(x: &Fe, e: &[u8]) -> Fe {
    let mut r = Fe::one();
    for b in e {
        for i in (0..8).rev() {
            r = r.square();
            if (b >> i) & 1 == 1 {
                r = &r * x;
            }
        }
    }
    r
}
/// Square root in the scalar field of BLS12-381 (order - 1 = 2^32 * q).
fn sqrt(a: &Fe) -> Option<Fe> {
    if a.is_zero() {
        return Some(Fe::zero());
    }
    let m1 = Fe::minus_one();
    let bytes = m1.to_bytes(); // big endian order-1
    // q = (order-1) >> 32, (order-1)/2
    let q = bytes[..bytes.len() - 4].to_vec();
    let half = shr1(&bytes);
    if !eq(&pow_be(a, &half), &Fe::one()) {
        return None;
    }
    let mut z = fe(2);
    while eq(&pow_be(&z, &half), &Fe::one()) {
        z = z + Fe::one();
    }
    let mut m = 32u32;
    let mut c = pow_be(&z, &q);
    let mut t = pow_be(a, &q);
    // (q+1)/2
    let mut q1 = q.clone();
    for i in (0..q1.len()).rev() {
        let (v, o) = q1[i].overflowing_add(1);
        q1[i] = v;
        if !o {
            break;
        }
    }
    let mut r = pow_be(a, &shr1(&q1));
    while !eq(&t, &Fe::one()) {
        let mut i = 0;
        let mut tt = t.clone();
        while !eq(&tt, &Fe::one()) {
            tt = tt.square();
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..(m - i - 1) {
            b = b.square();
        }
        m = i;
        c = b.square();
        t = &t * &c;
        r = &r * &b;
    }
    Some(r)
}
fn shr1(b: &[u8]) -> Vec<u8> {
    let mut out = vec![0u8; b.len()];
    let mut carry = 0;
    for i in 0..b.len() {
        out[i] = (b[i] >> 1) | (carry << 7);
        carry = b[i] & 1;
    }
    out
}

/// Unsigned integers up to 384 bits, least significant word first.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct U([u64; 6]);
impl U {
    fn of(x: &Fe) -> U {
        let k = key(x);
        let mut w = [0u64; 6];
        for (i, b) in k.iter().rev().enumerate() {
            w[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        U(w)
    }
    fn zero() -> U {
        U([0; 6])
    }
    fn order() -> U {
        let mut o = U::of(&Fe::minus_one());
        o.0[0] += 1; // the order is odd
        o
    }
    fn add(&self, o: &U) -> U {
        let mut r = [0u64; 6];
        let mut c = 0u128;
        for i in 0..6 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        U(r)
    }
    fn sub(&self, o: &U) -> U {
        let mut r = [0u64; 6];
        let mut b = 0i128;
        for i in 0..6 {
            let t = self.0[i] as i128 - o.0[i] as i128 - b;
            b = if t < 0 { 1 } else { 0 };
            r[i] = (t + (b << 64)) as u64;
        }
        U(r)
    }
    fn le(&self, o: &U) -> bool {
        for i in (0..6).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] < o.0[i];
            }
        }
        true
    }
    fn lt(&self, o: &U) -> bool {
        !o.le(self)
    }
    fn half(&self) -> U {
        let mut r = [0u64; 6];
        for i in 0..6 {
            r[i] = self.0[i] >> 1 | if i < 5 { self.0[i + 1] << 63 } else { 0 };
        }
        U(r)
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub nodes: u64,
    pub leaves: u64,
    pub menu: u64,
    pub assigns: u64,
    pub exhausted: bool,
}

#[derive(Clone)]
struct St {
    val: Vec<Option<Fe>>,
    /// residual rows still active
    row_on: Vec<bool>,
    gate_on: Vec<bool>,
    extra_rows: Vec<Row>,
    /// deferred eliminations, to be solved in reverse order
    defer: Vec<Defer>,
}
#[derive(Clone)]
enum Defer {
    Row(Row, V),
    Gate(usize, V),
}

pub struct Search<'a> {
    c: &'a Circ,
    menu: Vec<Fe>,
    forbid: Vec<(V, Fe)>,
    budget: u64,
    t0: std::time::Instant,
    pub stats: Stats,
}

enum Prop {
    Conflict,
    Ok,
}

/// A sum of two-valued variables whose weights are, up to sign, c * 2^j: the integer weights, the
/// target in units of c, and the largest sum.
fn binary_chain(t: &[(V, Fe)], dom: &BTreeMap<V, Vec<Fe>>, c: &Fe) -> Option<(Vec<(U, V, bool)>, Fe, U)> {
    if t.len() > 380 {
        return None;
    }
    let mut at: BTreeMap<Vec<u8>, Vec<(usize, bool)>> = BTreeMap::new();
    let mut least: Option<(U, Fe)> = None;
    for (i, (v, k)) in t.iter().enumerate() {
        let d = &dom[v];
        let k1 = k * (&d[1] - &d[0]);
        for (x, pos) in [(k1.clone(), true), (k1.negation(), false)] {
            let u = U::of(&x);
            if least.as_ref().map_or(true, |l| u.lt(&l.0)) {
                least = Some((u, x.clone()));
            }
            at.entry(key(&x)).or_default().push((i, pos));
        }
    }
    let unit = least?.1;
    let mut x = unit.clone();
    let mut used = vec![false; t.len()];
    let mut w = vec![];
    let mut target = c.negation();
    let mut p = U::zero();
    p.0[0] = 1;
    let mut total = U::zero();
    for _ in 0..t.len() {
        let (i, pos) = *at.get(&key(&x))?.iter().find(|y| !used[y.0])?;
        used[i] = true;
        let (v, k) = &t[i];
        let d = &dom[v];
        target = target - k * &d[if pos { 0 } else { 1 }];
        w.push((p, *v, pos));
        total = total.add(&p);
        p = p.add(&p);
        x = &x + &x;
    }
    Some((w, target * unit.inverse(), total))
}

impl<'a> Search<'a> {
    pub fn new(c: &'a Circ) -> Search<'a> {
        let menu = vec![Fe::zero(), Fe::one(), Fe::minus_one(), fe(2), drv("menu", 0)];
        Search { c, menu, forbid: vec![], budget: 200_000, t0: std::time::Instant::now(), stats: Stats::default() }
    }
    pub fn menu(mut self, extra: &[Fe]) -> Self {
        for x in extra {
            if !self.menu.iter().any(|y| eq(x, y)) {
                self.menu.push(x.clone());
            }
        }
        self
    }
    pub fn forbid(mut self, v: V, x: Fe) -> Self {
        self.forbid.push((v, x));
        self
    }
    pub fn budget(mut self, b: u64) -> Self {
        self.budget = b;
        self
    }
    /// A satisfying assignment extending `fixed`, if the search finds one.
    pub fn solve(&mut self, fixed: &[(V, Fe)]) -> Option<Vec<Fe>> {
        let mut s = St {
            val: vec![None; self.c.nv()],
            row_on: vec![true; self.c.rows.len()],
            gate_on: vec![true; self.c.n],
            extra_rows: vec![],
            defer: vec![],
        };
        for (v, x) in fixed {
            if let Some(y) = &s.val[*v] {
                if !eq(x, y) {
                    return None;
                }
            }
            s.val[*v] = Some(x.clone());
        }
        self.dfs(s)
    }
    fn gv(&self, i: usize) -> (V, V, V) {
        let b = self.c.m + 3 * i;
        (b, b + 1, b + 2)
    }
    fn set(&mut self, s: &mut St, v: V, x: Fe) -> bool {
        self.stats.assigns += 1;
        if let Some(y) = &s.val[v] {
            return eq(y, &x);
        }
        for (w, y) in &self.forbid {
            if *w == v && eq(y, &x) {
                return false;
            }
        }
        s.val[v] = Some(x);
        true
    }
    fn resid(s: &St, r: &Row) -> (Vec<(V, Fe)>, Fe) {
        let mut c = r.c.clone();
        let mut u = vec![];
        for (v, k) in &r.t {
            match &s.val[*v] {
                Some(x) => c = c + k * x,
                None => u.push((*v, k.clone())),
            }
        }
        (u, c)
    }
    /// unit propagation to a fixpoint
    fn unit(&mut self, s: &mut St) -> Prop {
        // in circuit order: rows and gates are visited repeatedly until nothing changes; the
        // builder's order makes two or three sweeps enough for forward computations
        let c = self.c;
        // last variable of each row, to visit it right after it can become unit
        loop {
            let mut changed = false;
            // interleave: sweep rows; after each row that assigned a gate input, try that gate
            for i in 0..c.rows.len() {
                if !s.row_on[i] {
                    continue;
                }
                let unknown = c.rows[i].t.iter().filter(|(v, _)| s.val[*v].is_none()).count();
                if unknown > 1 {
                    continue;
                }
                let (u, k) = Self::resid(s, &c.rows[i]);
                s.row_on[i] = false;
                if u.is_empty() {
                    if !k.is_zero() {
                        return Prop::Conflict;
                    }
                    continue;
                }
                let x = (k * u[0].1.inverse()).negation();
                if !self.set(s, u[0].0, x) {
                    return Prop::Conflict;
                }
                changed = true;
                if u[0].0 >= c.m && u[0].0 < c.m + 3 * c.n {
                    let g = (u[0].0 - c.m) / 3;
                    if s.gate_on[g] {
                        match self.gate_unit(s, g) {
                            None => return Prop::Conflict,
                            Some(b) => changed |= b,
                        }
                    }
                }
            }
            let mut i = 0;
            while i < s.extra_rows.len() {
                let r = s.extra_rows[i].clone();
                let (u, k) = Self::resid(s, &r);
                if u.len() > 1 {
                    i += 1;
                    continue;
                }
                s.extra_rows.swap_remove(i);
                if u.is_empty() {
                    if !k.is_zero() {
                        return Prop::Conflict;
                    }
                    continue;
                }
                let x = (k * u[0].1.inverse()).negation();
                if !self.set(s, u[0].0, x) {
                    return Prop::Conflict;
                }
                changed = true;
            }
            for g in 0..c.n {
                if s.gate_on[g] {
                    match self.gate_unit(s, g) {
                        None => return Prop::Conflict,
                        Some(b) => changed |= b,
                    }
                }
            }
            if !changed {
                return Prop::Ok;
            }
        }
    }
    /// None = conflict, Some(progress)
    fn gate_unit(&mut self, s: &mut St, g: usize) -> Option<bool> {
        let (l, r, o) = self.gv(g);
        let (lv, rv, ov) = (s.val[l].clone(), s.val[r].clone(), s.val[o].clone());
        match (lv, rv, ov) {
            (Some(a), Some(b), _) => {
                s.gate_on[g] = false;
                if !self.set(s, o, a * b) {
                    return None;
                }
                Some(true)
            }
            (Some(a), None, ov) | (None, Some(a), ov) => {
                let other = if s.val[l].is_some() { r } else { l };
                if a.is_zero() {
                    s.gate_on[g] = false;
                    if !self.set(s, o, Fe::zero()) {
                        return None;
                    }
                    return Some(true);
                }
                if let Some(z) = ov {
                    s.gate_on[g] = false;
                    if !self.set(s, other, z * a.inverse()) {
                        return None;
                    }
                    return Some(true);
                }
                s.gate_on[g] = false;
                s.extra_rows.push(Row { t: vec![(other, a), (o, Fe::minus_one())], c: Fe::zero() });
                Some(true)
            }
            _ => Some(false),
        }
    }
    fn dfs(&mut self, mut s: St) -> Option<Vec<Fe>> {
        self.stats.nodes += 1;
        if self.stats.nodes > self.budget || self.t0.elapsed().as_secs() >= crate::rt::SEARCH_SECS.load(std::sync::atomic::Ordering::Relaxed) {
            self.stats.exhausted = true;
            return None;
        }
        'restart: loop {
            if self.t0.elapsed().as_secs() >= crate::rt::SEARCH_SECS.load(std::sync::atomic::Ordering::Relaxed) {
                self.stats.exhausted = true;
                return None;
            }
            if let Prop::Conflict = self.unit(&mut s) {
                self.stats.leaves += 1;
                return None;
            }
            // residual rows
            let mut rows: Vec<(Vec<(V, Fe)>, Fe)> = vec![];
            for i in 0..self.c.rows.len() {
                if s.row_on[i] {
                    rows.push(Self::resid(&s, &self.c.rows[i]));
                }
            }
            for r in &s.extra_rows {
                rows.push(Self::resid(&s, r));
            }
            let gates: Vec<usize> = (0..self.c.n).filter(|g| s.gate_on[*g]).collect();
            // linked variables: x = a*y + b through two-variable rows
            let mut link: BTreeMap<V, (V, Fe, Fe)> = BTreeMap::new();
            fn find(link: &BTreeMap<V, (V, Fe, Fe)>, v: V) -> (V, Fe, Fe) {
                let (mut w, mut a, mut b) = (v, Fe::one(), Fe::zero());
                while let Some((y, k, d)) = link.get(&w) {
                    b = &b + &a * d;
                    a = &a * k;
                    w = *y;
                }
                (w, a, b)
            }
            let norm = |link: &BTreeMap<V, (V, Fe, Fe)>, r: &(Vec<(V, Fe)>, Fe)| -> (Vec<(V, Fe)>, Fe) {
                let mut t: BTreeMap<V, Fe> = BTreeMap::new();
                let mut c = r.1.clone();
                for (v, k) in &r.0 {
                    let (w, a, b) = find(link, *v);
                    c = c + k * &b;
                    let e = t.entry(w).or_insert_with(Fe::zero);
                    *e = &*e + k * a;
                }
                (t.into_iter().filter(|(_, k)| !k.is_zero()).collect(), c)
            };
            let mut live = vec![true; rows.len()];
            let mut again = true;
            while again {
                again = false;
                for i in 0..rows.len() {
                    if !live[i] {
                        continue;
                    }
                    if rows[i].0.len() > 2 && link.is_empty() {
                        continue;
                    }
                    let (t, c) = norm(&link, &rows[i]);
                    match t.len() {
                        0 => {
                            live[i] = false;
                            if !c.is_zero() {
                                self.stats.leaves += 1;
                                return None;
                            }
                        }
                        1 => {
                            let x = (c * t[0].1.inverse()).negation();
                            if !self.set(&mut s, t[0].0, x) {
                                self.stats.leaves += 1;
                                return None;
                            }
                            continue 'restart;
                        }
                        2 => {
                            // t0 = -(k1 t1 + c)/k0 ; keep the public variables as representatives
                            let (p, q) = if self.forbid.iter().any(|(w, _)| *w == t[0].0) { (1, 0) } else { (0, 1) };
                            let inv = t[p].1.inverse().negation();
                            link.insert(t[p].0, (t[q].0, &t[q].1 * &inv, c * inv));
                            live[i] = false;
                            again = true;
                        }
                        _ => {}
                    }
                }
            }
            // gates over one representative: quadratic equation, gives a domain
            let mut dom: BTreeMap<V, Vec<Fe>> = BTreeMap::new();
            let mut hard: Vec<(usize, (V, Fe, Fe), (V, Fe, Fe), Option<(V, Fe, Fe)>, Fe)> = vec![];
            for &g in &gates {
                let (l, r, o) = self.gv(g);
                let (fl, fr) = (find(&link, l), find(&link, r));
                // known values reached through a link were assigned above only for the representative
                let oc = match &s.val[o] {
                    Some(x) => (None, x.clone()),
                    None => (Some(find(&link, o)), Fe::zero()),
                };
                let single = fl.0 == fr.0 && oc.0.as_ref().map_or(true, |f| f.0 == fl.0);
                if single {
                    // (a1 y + b1)(a2 y + b2) - (a3 y + b3) = 0
                    let (a3, b3) = match &oc.0 {
                        Some(f) => (f.1.clone(), f.2.clone()),
                        None => (Fe::zero(), oc.1.clone()),
                    };
                    let qa = &fl.1 * &fr.1;
                    let qb = &fl.1 * &fr.2 + &fl.2 * &fr.1 - a3;
                    let qc = &fl.2 * &fr.2 - b3;
                    let mut roots = vec![];
                    if qc.is_zero() {
                        roots.push(Fe::zero());
                        roots.push((&qb * qa.inverse()).negation());
                    } else {
                        let disc = qb.square() - fe(4) * &qa * &qc;
                        if let Some(d) = sqrt(&disc) {
                            let i2 = (&qa + &qa).inverse();
                            roots.push((qb.negation() + &d) * &i2);
                            roots.push((qb.negation() - &d) * &i2);
                        }
                    }
                    if roots.len() == 2 && eq(&roots[0], &roots[1]) {
                        roots.pop();
                    }
                    let e = dom.entry(fl.0).or_insert_with(|| roots.clone());
                    e.retain(|x| roots.iter().any(|y| eq(x, y)));
                    if e.is_empty() {
                        self.stats.leaves += 1;
                        return None;
                    }
                } else {
                    hard.push((g, fl, fr, oc.0, oc.1));
                }
            }
            // forbidden values cut domains
            for (w, x) in &self.forbid {
                if let Some(d) = dom.get_mut(w) {
                    d.retain(|y| !eq(x, y));
                    if d.is_empty() {
                        return None;
                    }
                }
            }
            let mut progress = false;
            for (v, d) in &dom {
                if d.len() == 1 && s.val[*v].is_none() {
                    let x = d[0].clone();
                    if !self.set(&mut s, *v, x) {
                        return None;
                    }
                    progress = true;
                }
            }
            if progress {
                continue 'restart;
            }
            // bounded sums of two-valued variables with small integer weights
            for i in 0..rows.len() {
                if !live[i] {
                    continue;
                }
                let (t, c) = norm(&link, &rows[i]);
                if t.len() < 2 || !t.iter().all(|(v, _)| dom.get(v).map_or(false, |d| d.len() == 2)) {
                    continue;
                }
                // x = d0 + (d1-d0) b ; orient so that every weight is a positive integer below half the order
                let mut w: Vec<(U, V, bool)> = vec![];
                let mut target = c.negation();
                let order = U::order();
                let half = order.half();
                let mut total = U::zero();
                for (v, k) in &t {
                    let d = &dom[v];
                    let k1 = k * (&d[1] - &d[0]);
                    let x = U::of(&k1);
                    let x = if x.le(&half) {
                        target = target - k * &d[0];
                        w.push((x, *v, true));
                        x
                    } else {
                        target = target - k * &d[1];
                        let y = U::of(&k1.negation());
                        w.push((y, *v, false));
                        y
                    };
                    total = total.add(&x);
                }
                let mut most = 5;
                let grows = |w: &[(U, V, bool)]| {
                    let mut xs: Vec<U> = w.iter().map(|x| x.0).collect();
                    xs.sort_by(|a, b| if a == b { std::cmp::Ordering::Equal } else if a.lt(b) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
                    let mut acc = U::zero();
                    xs.iter().all(|x| {
                        let ok = acc.lt(x);
                        acc = acc.add(x);
                        ok
                    })
                };
                if order.le(&total) || (w.len() > 16 && !grows(&w)) {
                    // weights c, 2c, 4c, ... that wrap around the field: divide by c
                    if let Some((w2, t2, tot2)) = binary_chain(&t, &dom, &c) {
                        w = w2;
                        target = t2;
                        total = tot2;
                        most = 64;
                    }
                }
                // the sum lies in [0, total]: the integers it may equal are target + j * order
                let mut tgts: Vec<U> = vec![];
                let mut x = U::of(&target);
                while x.le(&total) && tgts.len() < most {
                    tgts.push(x);
                    x = x.add(&order);
                }
                if most == 64 && tgts.len() == most {
                    self.stats.menu += 1;
                }
                if tgts.is_empty() {
                    self.stats.leaves += 1;
                    return None;
                }
                w.sort_by(|a, b| if a.0 == b.0 { std::cmp::Ordering::Equal } else if a.0.lt(&b.0) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less });
                if tgts.len() == 1 {
                    // forced values: an element larger than the target is 0; one whose absence cannot be made up is 1
                    let mut rest = total;
                    let mut rem = tgts[0];
                    let mut forced: Vec<(V, bool)> = vec![];
                    for (x, v, pos) in &w {
                        if rem.lt(x) {
                            forced.push((*v, !*pos));
                            rest = rest.sub(x);
                        } else if rest.sub(x).lt(&rem) {
                            forced.push((*v, *pos));
                            rem = rem.sub(x);
                            rest = rest.sub(x);
                        } else {
                            break;
                        }
                    }
                    if !forced.is_empty() {
                        for (v, hi) in forced {
                            let x = dom[&v][if hi { 1 } else { 0 }].clone();
                            if !self.set(&mut s, v, x) {
                                self.stats.leaves += 1;
                                return None;
                            }
                        }
                        continue 'restart;
                    }
                } else if most == 64 || tgts.len() < 5 {
                    // several integers: with superincreasing weights each has at most one decomposition
                    let mut acc = U::zero();
                    let sup = w.iter().rev().all(|(x, _, _)| {
                        let ok = acc.lt(x);
                        acc = acc.add(x);
                        ok
                    });
                    if sup {
                        for t in tgts {
                            let mut rem = t;
                            let mut b = s.clone();
                            let mut ok = true;
                            for (x, v, pos) in &w {
                                let take = x.le(&rem);
                                if take {
                                    rem = rem.sub(x);
                                }
                                let y = dom[v][if take == *pos { 1 } else { 0 }].clone();
                                ok = ok && self.set(&mut b, *v, y);
                            }
                            if !ok || rem != U::zero() {
                                self.stats.leaves += 1;
                                continue;
                            }
                            if let Some(a) = self.dfs(b) {
                                return Some(a);
                            }
                            if self.stats.exhausted {
                                return None;
                            }
                        }
                        return None;
                    }
                }
            }
            // a representative that occurs once, in a row or in a gate's output: that row or gate
            // can always be satisfied; drop it and solve for it at the end
            let mut occ: BTreeMap<V, usize> = BTreeMap::new();
            let live_rows: Vec<(Vec<(V, Fe)>, Fe)> = (0..rows.len()).filter(|i| live[*i]).map(|i| norm(&link, &rows[i])).collect();
            let linked = |link: &BTreeMap<V, (V, Fe, Fe)>, v: V| link.contains_key(&v) || link.values().any(|x| x.0 == v);
            for (t, _) in &live_rows {
                for (v, _) in t {
                    *occ.entry(*v).or_insert(0) += 1;
                }
            }
            for (_, l, r, o, _) in &hard {
                for f in [Some(l), Some(r), o.as_ref()].iter().flatten() {
                    *occ.entry(f.0).or_insert(0) += 1;
                }
            }
            if dom.is_empty() {
                let private = |v: &V| occ.get(v) == Some(&1) && !self.forbid.iter().any(|(w, _)| w == v) && !linked(&link, *v);
                // rows are stored un-normalised, so only unlinked private variables are used
                let mut dropped = false;
                for i in 0..self.c.rows.len() {
                    if s.row_on[i] {
                        if let Some((v, _)) = self.c.rows[i].t.iter().find(|(v, _)| s.val[*v].is_none() && private(v)) {
                            s.row_on[i] = false;
                            s.defer.push(Defer::Row(self.c.rows[i].clone(), *v));
                            dropped = true;
                            break;
                        }
                    }
                }
                if !dropped {
                    for (g, _, _, o, _) in &hard {
                        let ov = self.gv(*g).2;
                        if o.is_some() && private(&ov) {
                            s.gate_on[*g] = false;
                            s.defer.push(Defer::Gate(*g, ov));
                            dropped = true;
                            break;
                        }
                    }
                }
                if dropped {
                    continue 'restart;
                }
            }
            // ---- branch
            // 1. smallest domain
            if let Some((v, d)) = dom.iter().next() {
                let (v, d) = (*v, d.clone());
                for x in d {
                    let mut b = s.clone();
                    if self.set(&mut b, v, x) {
                        if let Some(a) = self.dfs(b) {
                            return Some(a);
                        }
                    }
                    if self.stats.exhausted {
                        return None;
                    }
                }
                return None;
            }
            // 2. a gate with zero output
            if let Some((g, _, _, _, _)) = hard.iter().find(|h| h.3.is_none() && h.4.is_zero()) {
                let (l, r, _) = self.gv(*g);
                for v in [l, r] {
                    let mut b = s.clone();
                    if self.set(&mut b, v, Fe::zero()) {
                        if let Some(a) = self.dfs(b) {
                            return Some(a);
                        }
                    }
                    if self.stats.exhausted {
                        return None;
                    }
                }
                return None;
            }
            // 3. a gate with free inputs: branch one input over the menu
            if let Some((g, fl, _, _, _)) = hard.first() {
                let _ = fl;
                let (l, _, _) = self.gv(*g);
                self.stats.menu += 1;
                for x in self.menu.clone() {
                    let mut b = s.clone();
                    if self.set(&mut b, l, x) {
                        if let Some(a) = self.dfs(b) {
                            return Some(a);
                        }
                    }
                    if self.stats.exhausted {
                        return None;
                    }
                }
                return None;
            }
            // 4. only linear rows are left: consistent?
            self.stats.leaves += 1;
            return self.finish_linear(s);
        }
    }
    /// No gates left: solve the linear rest, fill free variables, undo the deferrals, check everything.
    fn finish_linear(&mut self, mut s: St) -> Option<Vec<Fe>> {
        loop {
            if let Prop::Conflict = self.unit(&mut s) {
                return None;
            }
            let mut pick = None;
            // full elimination of what is left, by repeatedly fixing a free variable; first check consistency
            let mut rows: Vec<(BTreeMap<V, Fe>, Fe)> = vec![];
            for i in 0..self.c.rows.len() {
                if s.row_on[i] {
                    let (t, c) = Self::resid(&s, &self.c.rows[i]);
                    rows.push((t.into_iter().collect(), c));
                }
            }
            for r in &s.extra_rows {
                let (t, c) = Self::resid(&s, r);
                rows.push((t.into_iter().collect(), c));
            }
            if rows.is_empty() {
                break;
            }
            let mut done: Vec<(V, BTreeMap<V, Fe>, Fe)> = vec![];
            for (mut t, mut c) in rows {
                loop {
                    let hit = done.iter().find(|(p, _, _)| t.contains_key(p));
                    match hit {
                        None => break,
                        Some((p, dt, dc)) => {
                            let k = t.remove(p).unwrap();
                            for (v, x) in dt {
                                let e = t.entry(*v).or_insert_with(Fe::zero);
                                *e = &*e + &k * x;
                                if e.is_zero() {
                                    t.remove(v);
                                }
                            }
                            c = c + k * dc;
                        }
                    }
                }
                t.retain(|_, k| !k.is_zero());
                if t.is_empty() {
                    if !c.is_zero() {
                        return None;
                    }
                    continue;
                }
                // pivot: prefer a variable that is not public
                let p = *t.keys().find(|v| !self.forbid.iter().any(|(w, _)| w == *v)).unwrap_or(t.keys().next().unwrap());
                let inv = t.remove(&p).unwrap().inverse().negation();
                let dt: BTreeMap<V, Fe> = t.iter().map(|(v, k)| (*v, k * &inv)).collect();
                let dc = c * &inv;
                if pick.is_none() {
                    pick = dt.keys().next().cloned();
                }
                done.push((p, dt, dc));
            }
            // a public variable that the linear rest determines
            match pick {
                Some(v) => {
                    let x = drv("free", v as u64);
                    if !self.set(&mut s, v, x) {
                        return None;
                    }
                }
                None => {
                    // every row has a single variable: unit propagation finishes
                    for (p, _, dc) in done {
                        if !self.set(&mut s, p, dc) {
                            return None;
                        }
                    }
                }
            }
        }
        for v in 0..s.val.len() {
            if s.val[v].is_none() && !s.defer.iter().any(|d| matches!(d, Defer::Row(_, w) | Defer::Gate(_, w) if *w == v)) {
                s.val[v] = Some(drv("free", v as u64));
            }
        }
        while let Some(d) = s.defer.pop() {
            match d {
                Defer::Row(r, v) => {
                    let (u, c) = Self::resid(&s, &r);
                    if u.len() != 1 || u[0].0 != v {
                        return None;
                    }
                    s.val[v] = Some((c * u[0].1.inverse()).negation());
                }
                Defer::Gate(g, v) => {
                    let (l, r, _) = self.gv(g);
                    let x = s.val[l].clone()? * s.val[r].clone()?;
                    s.val[v] = Some(x);
                }
            }
        }
        let a: Vec<Fe> = s.val.into_iter().collect::<Option<Vec<_>>>()?;
        if self.forbid.iter().any(|(v, x)| eq(&a[*v], x)) {
            return None;
        }
        if self.c.holds(&a) {
            Some(a)
        } else {
            None
        }
    }
}
