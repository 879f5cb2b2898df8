//! Independent implementation of the Bulletproofs R1CS protocol (two-phase), written from the
//! published protocol, with this library's transcript layout. It can be told to deviate.
use crate::f::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination as LC, Variable as Var};
use bulletproofs_amcl::r1cs::{ConstraintSystem, R1CSProof, RandomizedConstraintSystem};
use merlin::Transcript;

pub type Cb = Box<dyn Fn(&mut RefRand) -> Result<(), R1CSError>>;

/// A tampering step run on the wires just before a phase is committed (phase = 1 or 2).
pub type Tamper = Box<dyn Fn(u8, &mut Vec<Fe>, &mut Vec<Fe>, &mut Vec<Fe>)>;

pub struct RefCs {
    pub t: Transcript,
    pub verifier: bool,
    pub cons: Vec<LC>,
    pub l: Vec<Fe>,
    pub r: Vec<Fe>,
    pub o: Vec<Fe>,
    pub v: Vec<Fe>,
    pub vb: Vec<Fe>,
    pub comms: Vec<G1>,
    pub n: usize,
    pub pending: Option<usize>,
    deferred: Vec<Cb>,
    pub tamper: Option<Tamper>,
    /// edits t_x, t_x_blinding, e_blinding before they are absorbed
    pub sc_tamper: Option<Box<dyn Fn(&mut Vec<Fe>, &Fe)>>,
    /// announce the value of t(x) that a true statement would have
    pub claim_tx: bool,
    /// an inner-product argument with extra rounds (how many, where the bases stand)
    pub forge: Option<(usize, (u8, u8))>,
}
pub struct RefRand {
    pub cs: RefCs,
}

pub fn absorb_point(t: &mut Transcript, l: &'static [u8], p: &G1) {
    t.append_message(l, &p.to_bytes());
}
pub fn absorb_scalar(t: &mut Transcript, l: &'static [u8], s: &Fe) {
    t.append_message(l, &s.to_bytes());
}
pub fn challenge(t: &mut Transcript, l: &'static [u8]) -> Fe {
    let mut b = [0u8; 48];
    t.challenge_bytes(l, &mut b);
    Fe::from(&b)
}

impl RefCs {
    pub fn new(label: &'static [u8], verifier: bool) -> RefCs {
        let mut t = Transcript::new(label);
        t.append_message(b"dom-sep", b"r1cs v1");
        RefCs {
            t,
            verifier,
            cons: vec![],
            l: vec![],
            r: vec![],
            o: vec![],
            v: vec![],
            vb: vec![],
            comms: vec![],
            n: 0,
            pending: None,
            deferred: vec![],
            tamper: None,
            sc_tamper: None,
            claim_tx: false, forge: None,
        }
    }
    pub fn commit_p(&mut self, g: &Gens, v: Fe, b: Fe) -> (G1, Var) {
        let c = ped(&g.g, &g.h, &v, &b);
        let var = self.commit_v(c.clone());
        self.v.push(v);
        self.vb.push(b);
        (c, var)
    }
    pub fn commit_v(&mut self, c: G1) -> Var {
        absorb_point(&mut self.t, b"V", &c);
        self.comms.push(c);
        Var::Committed(self.comms.len() - 1)
    }
    pub fn val(&self, v: &Var) -> Fe {
        match v {
            Var::Committed(i) => self.v[*i].clone(),
            Var::MultiplierLeft(i) => self.l[*i].clone(),
            Var::MultiplierRight(i) => self.r[*i].clone(),
            Var::MultiplierOutput(i) => self.o[*i].clone(),
            Var::One() => Fe::one(),
        }
    }
    pub fn eval(&self, lc: &LC) -> Fe {
        let mut s = Fe::zero();
        for (v, c) in &lc.terms {
            s = s + c * self.val(v);
        }
        s
    }
    fn gate(&mut self, l: Option<Fe>, r: Option<Fe>) -> (Var, Var, Var) {
        let i = self.n;
        self.n += 1;
        if !self.verifier {
            let (l, r) = (l.unwrap(), r.unwrap());
            self.o.push(&l * &r);
            self.l.push(l);
            self.r.push(r);
        }
        (Var::MultiplierLeft(i), Var::MultiplierRight(i), Var::MultiplierOutput(i))
    }
    fn run_deferred(mut self) -> Result<RefCs, R1CSError> {
        self.pending = None;
        if self.deferred.is_empty() {
            self.t.append_message(b"dom-sep", b"r1cs-1phase");
            return Ok(self);
        }
        self.t.append_message(b"dom-sep", b"r1cs-2phase");
        let cbs = std::mem::take(&mut self.deferred);
        let mut w = RefRand { cs: self };
        for cb in cbs {
            cb(&mut w)?;
        }
        Ok(w.cs)
    }
    fn weights(&self, z: &Fe) -> (Vec<Fe>, Vec<Fe>, Vec<Fe>, Vec<Fe>, Fe) {
        let n = self.n;
        let (mut wl, mut wr, mut wo) = (vec![Fe::zero(); n], vec![Fe::zero(); n], vec![Fe::zero(); n]);
        let mut wv = vec![Fe::zero(); self.comms.len()];
        let mut wc = Fe::zero();
        let mut zq = Fe::one();
        for lc in &self.cons {
            zq = &zq * z;
            for (v, c) in &lc.terms {
                let t = &zq * c;
                match v {
                    Var::MultiplierLeft(i) => wl[*i] = &wl[*i] + t,
                    Var::MultiplierRight(i) => wr[*i] = &wr[*i] + t,
                    Var::MultiplierOutput(i) => wo[*i] = &wo[*i] + t,
                    Var::Committed(i) => wv[*i] = &wv[*i] - t,
                    Var::One() => wc = wc - t,
                }
            }
        }
        (wl, wr, wo, wv, wc)
    }
    pub fn satisfied(&self) -> bool {
        self.cons.iter().all(|c| self.eval(c).is_zero())
            && (0..self.n).all(|i| eq(&(&self.l[i] * &self.r[i]), &self.o[i]))
    }
}

macro_rules! cs_impl {
    ($t:ty, $rcs:ty, |$s:ident| $cs:expr, $deferred:expr) => {
        impl ConstraintSystem for $t {
            type RandomizedCS = $rcs;
            fn multiply(&mut self, mut left: LC, mut right: LC) -> (Var, Var, Var) {
                let $s = self;
                let cs = $cs;
                let (lv, rv) = if cs.verifier { (None, None) } else { (Some(cs.eval(&left)), Some(cs.eval(&right))) };
                let (a, b, o) = cs.gate(lv, rv);
                left.terms.push((a, Fe::minus_one()));
                right.terms.push((b, Fe::minus_one()));
                cs.cons.push(left);
                cs.cons.push(right);
                (a, b, o)
            }
            fn allocate(&mut self, a: Option<Fe>) -> Result<Var, R1CSError> {
                let $s = self;
                let cs = $cs;
                if !cs.verifier && a.is_none() {
                    return Err(R1CSError::MissingAssignment);
                }
                match cs.pending.take() {
                    None => {
                        let (l, _, _) = cs.gate(a, Some(Fe::zero()));
                        cs.pending = Some(cs.n - 1);
                        Ok(l)
                    }
                    Some(i) => {
                        if !cs.verifier {
                            cs.r[i] = a.unwrap();
                            cs.o[i] = &cs.l[i] * &cs.r[i];
                        }
                        Ok(Var::MultiplierRight(i))
                    }
                }
            }
            fn allocate_multiplier(&mut self, a: Option<(Fe, Fe)>) -> Result<(Var, Var, Var), R1CSError> {
                let $s = self;
                let cs = $cs;
                if !cs.verifier && a.is_none() {
                    return Err(R1CSError::MissingAssignment);
                }
                let (l, r) = match a {
                    Some((l, r)) => (Some(l), Some(r)),
                    None => (None, None),
                };
                Ok(cs.gate(l, r))
            }
            fn constrain(&mut self, lc: LC) {
                let $s = self;
                $cs.cons.push(lc)
            }
            fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
            where
                F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
            {
                $deferred(self, callback)
            }
            fn evaluate_lc(&self, lc: &LC) -> Option<Fe> {
                let $s = self;
                let cs = $cs;
                if cs.verifier {
                    None
                } else {
                    Some(cs.eval(lc))
                }
            }
            fn allocate_single(&mut self, a: Option<Fe>) -> Result<(Var, Option<Var>), R1CSError> {
                match self.allocate(a)? {
                    Var::MultiplierRight(i) => Ok((Var::MultiplierRight(i), Some(Var::MultiplierOutput(i)))),
                    v => Ok((v, None)),
                }
            }
        }
    };
}
fn defer<F: 'static + Fn(&mut RefRand) -> Result<(), R1CSError>>(s: &mut RefCs, f: F) -> Result<(), R1CSError> {
    s.deferred.push(Box::new(f));
    Ok(())
}
fn run_now<F: 'static + Fn(&mut RefRand) -> Result<(), R1CSError>>(s: &mut RefRand, f: F) -> Result<(), R1CSError> {
    f(s)
}
cs_impl!(RefCs, RefRand, |s| s, defer);
// RefRand delegates
impl ConstraintSystem for RefRand {
    type RandomizedCS = RefRand;
    fn multiply(&mut self, l: LC, r: LC) -> (Var, Var, Var) {
        self.cs.multiply(l, r)
    }
    fn allocate(&mut self, a: Option<Fe>) -> Result<Var, R1CSError> {
        self.cs.allocate(a)
    }
    fn allocate_multiplier(&mut self, a: Option<(Fe, Fe)>) -> Result<(Var, Var, Var), R1CSError> {
        self.cs.allocate_multiplier(a)
    }
    fn constrain(&mut self, lc: LC) {
        self.cs.constrain(lc)
    }
    fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut RefRand) -> Result<(), R1CSError>,
    {
        run_now(self, callback)
    }
    fn evaluate_lc(&self, lc: &LC) -> Option<Fe> {
        self.cs.evaluate_lc(lc)
    }
    fn allocate_single(&mut self, a: Option<Fe>) -> Result<(Var, Option<Var>), R1CSError> {
        self.cs.allocate_single(a)
    }
}
impl RandomizedConstraintSystem for RefRand {
    fn challenge_scalar(&mut self, label: &'static [u8]) -> Fe {
        challenge(&mut self.cs.t, label)
    }
}

#[derive(Clone, Debug)]
pub struct RefProof {
    /// A_I1 A_O1 S1 A_I2 A_O2 S2 T_1 T_3 T_4 T_5 T_6
    pub pts: Vec<G1>,
    /// t_x t_x_blinding e_blinding
    pub sc: Vec<Fe>,
    pub ls: Vec<G1>,
    pub rs: Vec<G1>,
    pub a: Fe,
    pub b: Fe,
}
pub const PT: [&str; 11] = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"];
pub const SC: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];

impl RefProof {
    pub fn to_json(&self) -> serde_json::Value {
        let mut m = serde_json::Map::new();
        for (i, n) in PT.iter().enumerate() {
            m.insert(n.to_string(), serde_json::to_value(&self.pts[i]).unwrap());
        }
        for (i, n) in SC.iter().enumerate() {
            m.insert(n.to_string(), serde_json::to_value(&self.sc[i]).unwrap());
        }
        let mut ip = serde_json::Map::new();
        ip.insert("L".into(), serde_json::to_value(&G1Vector::from(self.ls.clone())).unwrap());
        ip.insert("R".into(), serde_json::to_value(&G1Vector::from(self.rs.clone())).unwrap());
        ip.insert("a".into(), serde_json::to_value(&self.a).unwrap());
        ip.insert("b".into(), serde_json::to_value(&self.b).unwrap());
        m.insert("ipp_proof".into(), ip.into());
        m.into()
    }
    pub fn lib(&self) -> R1CSProof {
        serde_json::from_value(self.to_json()).expect("library reads its own format")
    }
    pub fn from_lib(p: &R1CSProof) -> RefProof {
        let j = serde_json::to_value(p).unwrap();
        let pt = |v: &serde_json::Value| -> G1 { serde_json::from_value(v.clone()).unwrap() };
        let sc = |v: &serde_json::Value| -> Fe { serde_json::from_value(v.clone()).unwrap() };
        let lv = |v: &serde_json::Value| -> Vec<G1> {
            let x: G1Vector = serde_json::from_value(v.clone()).unwrap();
            x.as_slice().to_vec()
        };
        RefProof {
            pts: PT.iter().map(|n| pt(&j[*n])).collect(),
            sc: SC.iter().map(|n| sc(&j[*n])).collect(),
            ls: lv(&j["ipp_proof"]["L"]),
            rs: lv(&j["ipp_proof"]["R"]),
            a: sc(&j["ipp_proof"]["a"]),
            b: sc(&j["ipp_proof"]["b"]),
        }
    }
}

fn ip(a: &[Fe], b: &[Fe]) -> Fe {
    a.iter().zip(b).fold(Fe::zero(), |s, (x, y)| s + x * y)
}
fn pows(x: &Fe, n: usize) -> Vec<Fe> {
    let mut v = vec![];
    let mut c = Fe::one();
    for _ in 0..n {
        v.push(c.clone());
        c = &c * x;
    }
    v
}

/// Inner-product argument, prover side; bases already multiplied by their factors.
pub fn ipa_prove(t: &mut Transcript, q: &G1, g: Vec<G1>, h: Vec<G1>, a: Vec<Fe>, b: Vec<Fe>) -> (Vec<G1>, Vec<G1>, Fe, Fe) {
    let n = a.len();
    ipa_prove_as(t, n, q, g, h, a, b)
}
/// A forged argument that <a, b> is `target`: more rounds than the size announced asks for, the bases at
/// one of four places among identities (0: low block, 1: high block, 2: first of each group, 3: last of each group).
/// Of many extra rounds all but the last two are empty.
pub fn ipa_forge(t: &mut Transcript, q: &G1, mut g: Vec<G1>, mut h: Vec<G1>, mut a: Vec<Fe>, mut b: Vec<Fe>, target: &Fe, extra: usize, places: (u8, u8)) -> (Vec<G1>, Vec<G1>, Fe, Fe) {
    let n = a.len();
    ipa_start(t, n);
    let (mut ls, mut rs) = (vec![], vec![]);
    let pre = if extra > 8 { extra - 2 } else { 0 };
    for _ in 0..pre {
        absorb_point(t, b"L", &ident());
        absorb_point(t, b"R", &ident());
        ls.push(ident());
        rs.push(ident());
        let u = challenge(t, b"u");
        let ui = u.inverse();
        for i in 0..n {
            // the bases sit in the half that the verifier scales by 1/u
            g[i] = &g[i] * &ui;
            h[i] = &h[i] * &ui;
            a[i] = &a[i] * &u;
            b[i] = &b[i] * &u;
        }
    }
    let k = 1usize << (extra - pre);
    let pos = |w: u8, i: usize| match w {
        0 => i,
        1 => n * (k - 1) + i,
        2 => i * k,
        _ => i * k + k - 1,
    };
    let (mut g2, mut h2) = (vec![ident(); n * k], vec![ident(); n * k]);
    let (mut a2, mut b2) = (vec![Fe::zero(); n * k], vec![Fe::zero(); n * k]);
    let (mut fa, mut fb) = (vec![true; n * k], vec![true; n * k]);
    for i in 0..n {
        let (x, y) = (pos(places.0, i), pos(places.1, i));
        g2[x] = g[i].clone();
        a2[x] = a[i].clone();
        fa[x] = false;
        h2[y] = h[i].clone();
        b2[y] = b[i].clone();
        fb[y] = false;
    }
    let d = target - &ip(&a2, &b2);
    if let Some(j) = (0..n * k).find(|j| fa[*j] && !b2[*j].is_zero()) {
        a2[j] = &d * &b2[j].inverse();
    } else if let Some(j) = (0..n * k).find(|j| fb[*j] && !a2[*j].is_zero()) {
        b2[j] = &d * &a2[j].inverse();
    } else if let Some(j) = (0..n * k).find(|j| fa[*j] && fb[*j]) {
        a2[j] = Fe::one();
        b2[j] = d;
    }
    let (l, r, a, b) = ipa_rounds(t, q, g2, h2, a2, b2);
    ls.extend(l);
    rs.extend(r);
    (ls, rs, a, b)
}
fn ipa_start(t: &mut Transcript, n: usize) {
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_message(b"n", &(n as u64).to_le_bytes());
}
pub fn ipa_prove_as(t: &mut Transcript, n: usize, q: &G1, g: Vec<G1>, h: Vec<G1>, a: Vec<Fe>, b: Vec<Fe>) -> (Vec<G1>, Vec<G1>, Fe, Fe) {
    ipa_start(t, n);
    ipa_rounds(t, q, g, h, a, b)
}
fn ipa_rounds(t: &mut Transcript, q: &G1, mut g: Vec<G1>, mut h: Vec<G1>, mut a: Vec<Fe>, mut b: Vec<Fe>) -> (Vec<G1>, Vec<G1>, Fe, Fe) {
    let (mut ls, mut rs) = (vec![], vec![]);
    while a.len() > 1 {
        let k = a.len() / 2;
        let side = |a: &[Fe], g: &[G1], b: &[Fe], h: &[G1]| -> G1 {
            let mut s: Vec<Fe> = a.to_vec();
            s.extend_from_slice(b);
            s.push(ip(a, b));
            let mut p: Vec<G1> = g.to_vec();
            p.extend_from_slice(h);
            p.push(q.clone());
            msm(&p, &s)
        };
        let l = side(&a[..k], &g[k..], &b[k..], &h[..k]);
        let r = side(&a[k..], &g[..k], &b[..k], &h[k..]);
        absorb_point(t, b"L", &l);
        absorb_point(t, b"R", &r);
        ls.push(l);
        rs.push(r);
        let u = challenge(t, b"u");
        let ui = u.inverse();
        a = (0..k).map(|i| &a[i] * &u + &a[i + k] * &ui).collect();
        b = (0..k).map(|i| &b[i] * &ui + &b[i + k] * &u).collect();
        g = (0..k).map(|i| &g[i] * &ui + &g[i + k] * &u).collect();
        h = (0..k).map(|i| &h[i] * &u + &h[i + k] * &ui).collect();
    }
    (ls, rs, a[0].clone(), b[0].clone())
}
/// Inner-product argument, verifier side, by folding P and the bases.
pub fn ipa_verify(t: &mut Transcript, q: &G1, mut g: Vec<G1>, mut h: Vec<G1>, p: &G1, ls: &[G1], rs: &[G1], a: &Fe, b: &Fe) -> bool {
    let n = g.len();
    if ls.len() != rs.len() || ls.len() >= 32 || n != 1 << ls.len() {
        return false;
    }
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_message(b"n", &(n as u64).to_le_bytes());
    let mut p = p.clone();
    for (l, r) in ls.iter().zip(rs) {
        absorb_point(t, b"L", l);
        absorb_point(t, b"R", r);
        let u = challenge(t, b"u");
        let ui = u.inverse();
        let k = g.len() / 2;
        g = (0..k).map(|i| &g[i] * &ui + &g[i + k] * &u).collect();
        h = (0..k).map(|i| &h[i] * &u + &h[i + k] * &ui).collect();
        p = p + l * &u.square() + r * &ui.square();
    }
    let want = &g[0] * a + &h[0] * b + q * &(a * b);
    peq(&p, &want)
}

impl RefCs {
    pub fn prove(mut self, gens: &Gens) -> Result<(RefProof, RefCs), R1CSError> {
        let m = self.comms.len();
        self.t.append_message(b"m", &(m as u64).to_le_bytes());
        let n1 = self.n;
        let tamper = self.tamper.take();
        if let Some(f) = &tamper {
            f(1, &mut self.l, &mut self.r, &mut self.o);
        }
        let rnd = |n: usize| -> Vec<Fe> { (0..n).map(|_| Fe::random()).collect() };
        let commit = |lo: usize, hi: usize, a: &[Fe], b: Option<&[Fe]>, bl: &Fe| -> G1 {
            let mut p: Vec<G1> = gens.G.as_slice()[lo..hi].to_vec();
            let mut s = a.to_vec();
            if let Some(b) = b {
                p.extend_from_slice(&gens.H.as_slice()[lo..hi]);
                s.extend_from_slice(b);
            }
            p.push(gens.h.clone());
            s.push(bl.clone());
            msm(&p, &s)
        };
        let (mut sl, mut sr) = (rnd(n1), rnd(n1));
        let b1 = rnd(3);
        let mut pts = vec![
            commit(0, n1, &self.l, Some(&self.r), &b1[0]),
            commit(0, n1, &self.o, None, &b1[1]),
            commit(0, n1, &sl, Some(&sr), &b1[2]),
        ];
        for i in 0..3 {
            absorb_point(&mut self.t, PT[i].as_bytes(), &pts[i]);
        }
        self = self.run_deferred()?;
        let n = self.n;
        if let Some(f) = &tamper {
            f(2, &mut self.l, &mut self.r, &mut self.o);
        }
        let pn = n.next_power_of_two();
        let (s2l, s2r) = (rnd(n - n1), rnd(n - n1));
        let b2 = if n > n1 { rnd(3) } else { vec![Fe::zero(); 3] };
        if n > n1 {
            pts.push(commit(n1, n, &self.l[n1..], Some(&self.r[n1..]), &b2[0]));
            pts.push(commit(n1, n, &self.o[n1..], None, &b2[1]));
            pts.push(commit(n1, n, &s2l, Some(&s2r), &b2[2]));
        } else {
            pts.extend(vec![ident(); 3]);
        }
        for i in 3..6 {
            absorb_point(&mut self.t, PT[i].as_bytes(), &pts[i]);
        }
        sl.extend(s2l);
        sr.extend(s2r);
        let y = challenge(&mut self.t, b"y");
        let z = challenge(&mut self.t, b"z");
        let (wl, wr, wo, wv, wc) = self.weights(&z);
        let yp = pows(&y, pn);
        let yi = pows(&y.inverse(), pn);
        // l(X) = sum l_k X^k, r(X) = sum r_k X^k, k = 0..3
        let zero = vec![Fe::zero(); n];
        let lp: [Vec<Fe>; 4] = [
            zero.clone(),
            (0..n).map(|i| &self.l[i] + &yi[i] * &wr[i]).collect(),
            self.o.clone(),
            sl,
        ];
        let rp: [Vec<Fe>; 4] = [
            (0..n).map(|i| &wo[i] - &yp[i]).collect(),
            (0..n).map(|i| &yp[i] * &self.r[i] + &wl[i]).collect(),
            zero,
            (0..n).map(|i| &yp[i] * &sr[i]).collect(),
        ];
        let mut t = vec![Fe::zero(); 7];
        for i in 0..4 {
            for j in 0..4 {
                t[i + j] = &t[i + j] + ip(&lp[i], &rp[j]);
            }
        }
        let mut tb = rnd(7);
        tb[0] = Fe::zero();
        for (k, i) in [(6, 1), (7, 3), (8, 4), (9, 5), (10, 6)] {
            let p = ped(&gens.g, &gens.h, &t[i], &tb[i]);
            absorb_point(&mut self.t, PT[k].as_bytes(), &p);
            pts.push(p);
        }
        let u = challenge(&mut self.t, b"u");
        let x = challenge(&mut self.t, b"x");
        tb[2] = ip(&wv, &self.vb);
        let xp = pows(&x, 7);
        let tx = ip(&t, &xp);
        let tbx = ip(&tb, &xp);
        let ev = |p: &[Vec<Fe>; 4], i: usize| (0..4).fold(Fe::zero(), |s, k| s + &p[k][i] * &xp[k]);
        let mut lv: Vec<Fe> = (0..n).map(|i| ev(&lp, i)).collect();
        let mut rv: Vec<Fe> = (0..n).map(|i| ev(&rp, i)).collect();
        for i in n..pn {
            lv.push(Fe::zero());
            rv.push(yp[i].negation());
        }
        let e = (0..3).fold(Fe::zero(), |s, k| s + &xp[k + 1] * (&b1[k] + &u * &b2[k]));
        let mut sc = vec![tx, tbx, e];
        if self.claim_tx {
            let delta = (0..n).fold(Fe::zero(), |s, i| s + &wr[i] * &yi[i] * &wl[i]);
            let t2 = wc + delta + ip(&wv, &self.v);
            sc[0] = &sc[0] + &xp[2] * (t2 - &t[2]);
        }
        if let Some(f) = &self.sc_tamper {
            f(&mut sc, &x);
        }
        for i in 0..3 {
            absorb_scalar(&mut self.t, SC[i].as_bytes(), &sc[i]);
        }
        let w = challenge(&mut self.t, b"w");
        let q = &gens.g * &w;
        let fac = |i: usize| if i < n1 { Fe::one() } else { u.clone() };
        let gb: Vec<G1> = (0..pn).map(|i| &gens.G.as_slice()[i] * &fac(i)).collect();
        let hb: Vec<G1> = (0..pn).map(|i| &gens.H.as_slice()[i] * &(fac(i) * &yi[i])).collect();
        let (ls, rs, a, b) = match self.forge {
            Some((extra, places)) => ipa_forge(&mut self.t, &q, gb, hb, lv, rv, &sc[0], extra, places),
            None => ipa_prove(&mut self.t, &q, gb, hb, lv, rv),
        };
        Ok((RefProof { pts, sc, ls, rs, a, b }, self))
    }

    pub fn verify(mut self, gens: &Gens, p: &RefProof) -> Result<bool, R1CSError> {
        let m = self.comms.len();
        self.t.append_message(b"m", &(m as u64).to_le_bytes());
        let n1 = self.n;
        for i in 0..3 {
            absorb_point(&mut self.t, PT[i].as_bytes(), &p.pts[i]);
        }
        self = self.run_deferred()?;
        let n = self.n;
        let pn = n.next_power_of_two();
        for i in 3..6 {
            absorb_point(&mut self.t, PT[i].as_bytes(), &p.pts[i]);
        }
        let y = challenge(&mut self.t, b"y");
        let z = challenge(&mut self.t, b"z");
        for i in 6..11 {
            absorb_point(&mut self.t, PT[i].as_bytes(), &p.pts[i]);
        }
        let u = challenge(&mut self.t, b"u");
        let x = challenge(&mut self.t, b"x");
        for i in 0..3 {
            absorb_scalar(&mut self.t, SC[i].as_bytes(), &p.sc[i]);
        }
        let w = challenge(&mut self.t, b"w");
        let (wl, wr, wo, wv, wc) = self.weights(&z);
        let yi = pows(&y.inverse(), pn);
        let xp = pows(&x, 7);
        let delta = (0..n).fold(Fe::zero(), |s, i| s + &wr[i] * &yi[i] * &wl[i]);
        // t(x) commitment
        let lhs = ped(&gens.g, &gens.h, &p.sc[0], &p.sc[1]);
        let mut rhs = &gens.g * &(&xp[2] * (wc + delta));
        for i in 0..m {
            rhs = rhs + &self.comms[i] * &(&wv[i] * &xp[2]);
        }
        for (k, i) in [(6, 1), (7, 3), (8, 4), (9, 5), (10, 6)] {
            rhs = rhs + &p.pts[k] * &xp[i];
        }
        if !peq(&lhs, &rhs) {
            return Ok(false);
        }
        // P
        let fac = |i: usize| if i < n1 { Fe::one() } else { u.clone() };
        let gb: Vec<G1> = (0..pn).map(|i| &gens.G.as_slice()[i] * &fac(i)).collect();
        let hb: Vec<G1> = (0..pn).map(|i| &gens.H.as_slice()[i] * &(fac(i) * &yi[i])).collect();
        let mut pp = &gens.h * &p.sc[2].negation();
        for k in 0..3 {
            pp = pp + &p.pts[k] * &xp[k + 1] + &p.pts[3 + k] * &(&u * &xp[k + 1]);
        }
        let yp = pows(&y, pn);
        for i in 0..pn {
            if i < n {
                pp = pp + &gb[i] * &(&x * &yi[i] * &wr[i]) + &hb[i] * &(&x * &wl[i] + &wo[i] - &yp[i]);
            } else {
                pp = pp + &hb[i] * &yp[i].negation();
            }
        }
        let q = &gens.g * &w;
        pp = pp + &q * &p.sc[0];
        Ok(ipa_verify(&mut self.t, &q, gb, hb, &pp, &p.ls, &p.rs, &p.a, &p.b))
    }
}
