//! C05 inner-product argument, C06 Fiat-Shamir, C07 hiding, C09 lockstep, C10 callbacks.
use crate::core1::*;
use crate::f::*;
use crate::prog::*;
use crate::refimpl::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::linear_combination::LinearCombination as LC;
use bulletproofs_amcl::r1cs::{Prover, R1CSProof, Variable, Verifier};
use merlin::log::Event;
use merlin::Transcript;

struct IpInst {
    n: usize,
    q: G1,
    gf: Vec<Fe>,
    hf: Vec<Fe>,
    g: Vec<G1>,
    h: Vec<G1>,
    a: Vec<Fe>,
    b: Vec<Fe>,
    what: String,
    generic: bool,
}
impl IpInst {
    fn p(&self) -> G1 {
        let mut s: Vec<Fe> = (0..self.n).map(|i| &self.a[i] * &self.gf[i]).collect();
        s.extend((0..self.n).map(|i| &self.b[i] * &self.hf[i]));
        s.push((0..self.n).fold(Fe::zero(), |x, i| x + &self.a[i] * &self.b[i]));
        let mut p = self.g.clone();
        p.extend(self.h.clone());
        p.push(self.q.clone());
        msm(&p, &s)
    }
    fn prove(&self) -> InnerProductArgumentProof {
        let mut t = Transcript::new(b"ipp-mc");
        IPP::create_ipp(&mut t, &self.q, &self.gf.clone().into(), &self.hf.clone().into(), &self.g.clone().into(), &self.h.clone().into(), &self.a.clone().into(), &self.b.clone().into())
    }
    /// Ok(true/false) or panic text
    fn verify(&self, n: usize, p: &G1, pf: &InnerProductArgumentProof, label: &'static [u8]) -> Result<bool, String> {
        guard(|| {
            let mut t = Transcript::new(label);
            IPP::verify_ipp(n, &mut t, &self.gf.clone().into(), &self.hf.clone().into(), p, &self.q, &self.g.clone().into(), &self.h.clone().into(), &pf.a, &pf.b, &pf.L, &pf.R).is_ok()
        })
    }
    fn ref_verify(&self, p: &G1, pf: &InnerProductArgumentProof, label: &'static [u8]) -> bool {
        let mut t = Transcript::new(label);
        let gb = (0..self.n).map(|i| &self.g[i] * &self.gf[i]).collect();
        let hb = (0..self.n).map(|i| &self.h[i] * &self.hf[i]).collect();
        ipa_verify(&mut t, &self.q, gb, hb, p, pf.L.as_slice(), pf.R.as_slice(), &pf.a, &pf.b)
    }
}

pub fn c05(ctx: &Ctx) {
    let menu: Vec<Fe> = vec![Fe::zero(), Fe::one(), Fe::minus_one(), fe(2), drv("ip", 0)];
    let mut insts: Vec<IpInst> = vec![];
    let factors = |n: usize, k: usize| -> Vec<Fe> {
        match k {
            0 => vec![Fe::one(); n],
            1 => {
                let y = drv("y", 1);
                let mut c = Fe::one();
                (0..n)
                    .map(|_| {
                        let r = c.clone();
                        c = &c * &y;
                        r
                    })
                    .collect()
            }
            2 => (0..n).map(|i| if i < n / 2 { Fe::one() } else { drv("u", 2) }).collect(),
            3 => (0..n).map(|i| if i % 2 == 0 { Fe::minus_one() } else { Fe::zero() }).collect(),
            _ => (0..n).map(|i| drv("f", i as u64)).collect(),
        }
    };
    let mk = |n: usize, a: Vec<Fe>, b: Vec<Fe>, kf: (usize, usize), what: String, generic: bool| {
        let gs = gens(n);
        IpInst { n, q: G1::from_msg_hash(b"mc-Q"), gf: factors(n, kf.0), hf: factors(n, kf.1), g: gs.G.as_slice().to_vec(), h: gs.H.as_slice().to_vec(), a, b, what, generic }
    };
    // every pair of vectors over the menu for n = 1, 2
    for (i, x) in menu.iter().enumerate() {
        for (j, y) in menu.iter().enumerate() {
            for k in 0..3 {
                insts.push(mk(1, vec![x.clone()], vec![y.clone()], (k, (k + i) % 5), format!("n=1 menu {} {}", i, j), false));
            }
        }
    }
    for c in 0..625usize {
        let d: Vec<Fe> = (0..4).map(|k| menu[c / 5usize.pow(k) % 5].clone()).collect();
        if ctx.thorough || c % 3 == 0 || c < 25 {
            insts.push(mk(2, d[..2].to_vec(), d[2..].to_vec(), (c % 5, c / 5 % 5), format!("n=2 menu {}", c), false));
        }
    }
    // unit vectors and generic vectors with every factor pattern for larger n
    for n in ctx.b(vec![4usize, 8, 16], vec![4usize, 8, 16, 32, 64]) {
        for i in 0..n.min(16) {
            for j in 0..n.min(16) {
                if ctx.thorough && n <= 16 || i == j && (n <= 8 || i % 5 == 0) || n <= 4 && (j == (i + 1) % n || j == n - 1 - i) {
                    let unit = |k: usize| -> Vec<Fe> { (0..n).map(|x| if x == k { Fe::one() } else { Fe::zero() }).collect() };
                    insts.push(mk(n, unit(i), unit(j), (i % 5, j % 5), format!("n={} units {} {}", n, i, j), false));
                }
            }
        }
    }
    for n in ctx.b(vec![1usize, 2, 4, 8, 16], vec![1usize, 2, 4, 8, 16, 32, 64, 128]) {
        for k in 0..5 {
            for l in 0..5 {
                if k == l || l == 4 || k == 4 || (k, l) == (2, 1) || ctx.thorough && n <= 16 {
                    let a = (0..n).map(|i| drv("a", i as u64)).collect();
                    let b = (0..n).map(|i| drv("b", i as u64)).collect();
                    insts.push(mk(n, a, b, (k, l), format!("n={} generic factors {} {}", n, k, l), k != 3 && l != 3));
                }
            }
        }
        insts.push(mk(n, vec![Fe::zero(); n], vec![Fe::zero(); n], (4, 4), format!("n={} zeros", n), false));
        insts.push(mk(n, vec![Fe::one(); n], vec![Fe::minus_one(); n], (0, 1), format!("n={} ones", n), false));
    }
    // long vectors: both directions, and edits of every round
    let long: Vec<IpInst> = ctx
        .b(vec![32usize, 64, 128, 256, 512], vec![32usize, 64, 128, 256, 512, 1024, 2048])
        .into_iter()
        .flat_map(|n| [(0, 0), (2, 1), (4, 4)].iter().map(|kf| mk(n, (0..n).map(|i| drv("a", i as u64)).collect(), (0..n).map(|i| drv("b", i as u64)).collect(), *kf, format!("n={} generic factors {:?}", n, kf), true)).collect::<Vec<_>>())
        .collect();
    ctx.par("long vectors", &long, |x| {
        ctx.st(1);
        let pf = match guard(|| x.prove()) {
            Ok(p) => p,
            Err(e) => return ctx.viol("prove", format!("panic {} {}", e, x.what)),
        };
        let p = x.p();
        let mut alts = vec![("true relation".to_string(), pf.clone(), true)];
        for i in 0..pf.L.len() {
            for (w, l, r) in [("L+Q", &pf.L[i] + &x.q, pf.R[i].clone()), ("R-Q", pf.L[i].clone(), &pf.R[i] - &x.q), ("swap", pf.R[i].clone(), pf.L[i].clone()), ("-L", pf.L[i].negation(), pf.R[i].clone()), ("-R", pf.L[i].clone(), pf.R[i].negation())] {
                let mut m = pf.clone();
                m.L[i] = l;
                m.R[i] = r;
                alts.push((format!("{} in round {}", w, i), m, false));
            }
        }
        let mut m = pf.clone();
        m.a = &m.a + &Fe::one();
        alts.push(("a+1".to_string(), m, false));
        let mut m = pf.clone();
        m.b = m.b.negation();
        alts.push(("-b".to_string(), m, false));
        for (w, q, want) in alts {
            ctx.tr(1);
            ctx.tv(1);
            match x.verify(x.n, &p, &q, b"ipp-mc") {
                Ok(v) => {
                    ctx.check(v == want, "long", || format!("{} [{}]: accepted={}", x.what, w, v));
                }
                Err(e) => ctx.viol("long", format!("{} [{}]: panic {}", x.what, w, e)),
            }
        }
        ctx.check(x.ref_verify(&p, &pf, b"ipp-mc"), "interop", || format!("{}: independent verifier rejects", x.what));
    });
    ctx.par("instances", &insts, |x| {
        ctx.st(1);
        let pf = match guard(|| x.prove()) {
            Ok(p) => p,
            Err(e) => return ctx.viol("prove", format!("panic {} {}", e, x.what)),
        };
        let p = x.p();
        let bad = |key: &str, what: &str, r: Result<bool, String>, want: bool| match r {
            Ok(v) => {
                ctx.tr(1);
                ctx.tv(1);
                ctx.check(v == want, key, || format!("{} [{}]: accepted={} expected {}", x.what, what, v, want));
            }
            Err(e) => ctx.viol(key, format!("{} [{}]: panic {}", x.what, what, e)),
        };
        bad("true", "true relation", x.verify(x.n, &p, &pf, b"ipp-mc"), true);
        ctx.check(x.ref_verify(&p, &pf, b"ipp-mc"), "interop", || format!("{}: independent verifier rejects", x.what));
        // independent prover -> library verifier
        {
            let mut t = Transcript::new(b"ipp-mc");
            let gb = (0..x.n).map(|i| &x.g[i] * &x.gf[i]).collect();
            let hb = (0..x.n).map(|i| &x.h[i] * &x.hf[i]).collect();
            let (ls, rs, a, b) = ipa_prove(&mut t, &x.q, gb, hb, x.a.clone(), x.b.clone());
            let q = InnerProductArgumentProof { L: ls.into(), R: rs.into(), a, b };
            bad("interop", "independent prover", x.verify(x.n, &p, &q, b"ipp-mc"), true);
        }
        // any other P
        let mut ps = vec![("P+Q", &p + &x.q), ("-P", p.negation()), ("2P", &p + &p), ("identity", ident()), ("P-Q", &p - &x.q)];
        for i in 0..x.n {
            ps.push(("P+G_i", &p + &x.g[i]));
            ps.push(("P-H_i", &p - &x.h[i]));
        }
        for (w, q) in &ps {
            if !peq(q, &p) {
                bad("other P", w, x.verify(x.n, q, &pf, b"ipp-mc"), false);
            }
        }
        for (bn, b) in bad_points() {
            if let Ok(q) = serde_json::from_value::<G1>(b) {
                bad("other P", bn, x.verify(x.n, &q, &pf, b"ipp-mc"), false);
                for i in 0..pf.L.len() {
                    let mut m = pf.clone();
                    m.L[i] = q.clone();
                    bad("edited", bn, x.verify(x.n, &p, &m, b"ipp-mc"), false);
                    let mut m = pf.clone();
                    m.R[i] = q.clone();
                    bad("edited", bn, x.verify(x.n, &p, &m, b"ipp-mc"), false);
                }
            }
        }
        // lengths
        for n in [0, x.n / 2, x.n + 1, x.n * 2, x.n * 4] {
            if n != x.n {
                bad("length", &format!("n={}", n), x.verify(n, &p, &pf, b"ipp-mc"), false);
            }
        }
        let k = pf.L.len();
        for (dl, dr) in [(k + 1, k + 1), (k + 1, k), (k, k + 1), (k.saturating_sub(1), k.saturating_sub(1)), (k.saturating_sub(1), k), (k, k.saturating_sub(1)), (0, 0), (40, 40)] {
            if (dl, dr) != (k, k) {
                let mut m = pf.clone();
                let f = |v: &G1Vector, d: usize| -> G1Vector {
                    let mut w = v.as_slice().to_vec();
                    w.resize(d, x.q.clone());
                    w.into()
                };
                m.L = f(&pf.L, dl);
                m.R = f(&pf.R, dr);
                bad("length", &format!("|L|={} |R|={}", dl, dr), x.verify(x.n, &p, &m, b"ipp-mc"), false);
            }
        }
        // edited proof, edited parameters: reject for generic vectors, agree with the independent verifier always
        let mut eds: Vec<(String, InnerProductArgumentProof)> = vec![];
        for (w, d) in [("+1", Fe::one()), ("-1", Fe::minus_one())] {
            let mut m = pf.clone();
            m.a = &m.a + &d;
            eds.push((format!("a{}", w), m));
            let mut m = pf.clone();
            m.b = &m.b + &d;
            eds.push((format!("b{}", w), m));
        }
        let mut m = pf.clone();
        m.a = pf.a.negation();
        m.b = pf.b.negation();
        eds.push(("-a,-b".into(), m));
        let mut m = pf.clone();
        m.a = pf.b.clone();
        m.b = pf.a.clone();
        eds.push(("a<->b".into(), m));
        for i in 0..k {
            for w in 0..4 {
                let mut m = pf.clone();
                match w {
                    0 => m.L[i] = &pf.L[i] + &x.q,
                    1 => m.R[i] = &pf.R[i] + &x.g[0],
                    2 => {
                        m.L[i] = pf.R[i].clone();
                        m.R[i] = pf.L[i].clone();
                    }
                    _ => m.L[i] = ident(),
                }
                eds.push((format!("round {} kind {}", i, w), m));
            }
        }
        for (w, m) in &eds {
            let want = x.ref_verify(&p, m, b"ipp-mc");
            if x.generic {
                assert!(!want, "generic edit accepted by the reference");
            }
            bad("edited", w, x.verify(x.n, &p, m, b"ipp-mc"), want);
        }
        bad("label", "other label", x.verify(x.n, &p, &pf, b"ipp-mc2"), x.ref_verify(&p, &pf, b"ipp-mc2"));
        if !ctx.thorough && !x.generic && x.n > 2 {
            return;
        }
        for i in 0..x.n {
            for w in 0..4 {
                let mut y = IpInst { n: x.n, q: x.q.clone(), gf: x.gf.clone(), hf: x.hf.clone(), g: x.g.clone(), h: x.h.clone(), a: vec![], b: vec![], what: String::new(), generic: x.generic };
                match w {
                    0 => y.g[i] = &x.g[i] + &x.q,
                    1 => y.h[i] = x.h[i].negation(),
                    2 => y.gf[i] = &x.gf[i] + Fe::one(),
                    _ => y.hf[i] = &x.hf[i] - Fe::one(),
                }
                let want = y.ref_verify(&p, &pf, b"ipp-mc");
                if x.generic {
                    assert!(!want);
                }
                bad("parameter", &format!("parameter kind {} at {}", w, i), y.verify(x.n, &p, &pf, b"ipp-mc"), want);
            }
        }
        let y = IpInst { n: x.n, q: &x.q + &x.g[0], gf: x.gf.clone(), hf: x.hf.clone(), g: x.g.clone(), h: x.h.clone(), a: vec![], b: vec![], what: String::new(), generic: false };
        bad("parameter", "Q", y.verify(x.n, &p, &pf, b"ipp-mc"), y.ref_verify(&p, &pf, b"ipp-mc"));
        ctx.sample(|| x.what.clone());
    });
    // forged arguments: more rounds than the size asks for, with an inner product of one's choice
    let mut items = vec![];
    for n in ctx.b(vec![1usize, 2, 4, 8], vec![1, 2, 4, 8, 16, 32]) {
        for extra in 1..=ctx.b(3usize, 5) {
            for p in 0..16u8 {
                for kf in [(0, 0), (2, 1), (4, 4)] {
                    items.push((n, extra, (p % 4, p / 4), kf));
                }
            }
        }
    }
    // as many extra rounds as could wrap a shift around
    for n in [1usize, 2, 4] {
        for extra in [28usize, 30, 31, 32, 33, 62, 63, 64, 65, 128] {
            for p in 0..16u8 {
                items.push((n, extra, (p % 4, p / 4), (0, 0)));
            }
        }
    }
    ctx.par("extra rounds", &items, |&(n, extra, pl, kf)| {
        let x = mk(n, (0..n).map(|i| drv("a", i as u64)).collect(), (0..n).map(|i| drv("b", i as u64)).collect(), kf, String::new(), true);
        let gb: Vec<G1> = (0..n).map(|i| &x.g[i] * &x.gf[i]).collect();
        let hb: Vec<G1> = (0..n).map(|i| &x.h[i] * &x.hf[i]).collect();
        for off in [Fe::zero(), fe(5)] {
            let target = (0..n).fold(off.clone(), |s, i| s + &x.a[i] * &x.b[i]);
            let p = x.p() + &x.q * &off;
            // announced as the true size and as the forged one
            for ann in if extra > 8 { vec![n] } else { vec![n, n << extra] } {
                let mut t = Transcript::new(b"ipp-mc");
                let (ls, rs, a, b) = if ann == n {
                    ipa_forge(&mut t, &x.q, gb.clone(), hb.clone(), x.a.clone(), x.b.clone(), &target, extra, pl)
                } else {
                    // same vectors, the larger size absorbed
                    let mut g2 = gb.clone();
                    let mut h2 = hb.clone();
                    let (mut a2, mut b2) = (x.a.clone(), x.b.clone());
                    g2.resize(ann, ident());
                    h2.resize(ann, ident());
                    a2.resize(ann, Fe::zero());
                    b2.resize(ann, Fe::zero());
                    a2[n] = Fe::one();
                    b2[n] = off.clone();
                    ipa_prove_as(&mut t, ann, &x.q, g2, h2, a2, b2)
                };
                let pf = InnerProductArgumentProof { L: ls.into(), R: rs.into(), a, b };
                for claim in if extra > 8 { vec![n] } else { vec![n, n << extra] } {
                    ctx.tr(1);
                    ctx.tv(1);
                    match x.verify(claim, &p, &pf, b"ipp-mc") {
                        Ok(v) => {
                            ctx.check(!v, "extra rounds", || format!("n={} with {} extra rounds (places {:?}, announced {}, inner product off by {}) accepted as size {}", n, extra, pl, ann, show(&off), claim));
                        }
                        Err(e) => ctx.viol("extra rounds", format!("panic {} n={} extra {}", e, n, extra)),
                    }
                }
            }
        }
    });
    // parameter vectors of the wrong length are errors
    let items: Vec<(usize, usize, usize)> = [1usize, 2, 4].iter().flat_map(|n| (0..4).flat_map(move |w| [n - 1, n + 1].into_iter().map(move |l| (*n, w, l)))).collect();
    ctx.par("wrong lengths", &items, |(n, w, l)| {
        let x = mk(*n, (0..*n).map(|i| drv("a", i as u64)).collect(), (0..*n).map(|i| drv("b", i as u64)).collect(), (4, 4), String::new(), true);
        let pf = x.prove();
        let p = x.p();
        let mut y = mk(*n, vec![], vec![], (4, 4), String::new(), true);
        match w {
            0 => y.g.resize(*l, x.q.clone()),
            1 => y.h.resize(*l, x.q.clone()),
            2 => y.gf.resize(*l, Fe::one()),
            _ => y.hf.resize(*l, Fe::one()),
        }
        ctx.tr(1);
        match y.verify(*n, &p, &pf, b"ipp-mc") {
            Ok(v) => {
                ctx.check(!v, "wrong length", || format!("accepted n={} list {} of length {}", n, w, l));
            }
            Err(e) => ctx.viol("wrong length", format!("panic {} n={} list {} of length {}", e, n, w, l)),
        }
    });
}

// ---------------------------------------------------------------- C06
pub struct Run {
    pub log: Vec<Event>,
    pub end: Vec<u8>,
    pub ncb: usize,
    pub ok: bool,
}
fn end_of(t: &mut Transcript) -> Vec<u8> {
    let mut b = vec![0u8; 32];
    t.challenge_bytes(b"mc-end", &mut b);
    b
}
pub fn log_prove(ops: &[Op], prof: u8, g: &Gens) -> Result<(R1CSProof, Vec<G1>, Run), String> {
    let st = Exec::new(true, prof);
    guard(|| {
        merlin::log::start();
        let mut comms = vec![];
        let mut t = Transcript::new(LABEL);
        let mut p = Prover::new(&g.g, &g.h, &mut t);
        run_top(&mut p, ops, &st, &mut comms).unwrap();
        let proof = p.prove(&g.G, &g.H).unwrap();
        let log = merlin::log::stop();
        let ncb = st.borrow().chals.len();
        (proof, comms, Run { log, end: end_of(&mut t), ncb, ok: true })
    })
}
pub fn log_verify(ops: &[Op], prof: u8, g: &Gens, proof: &R1CSProof, comms: &[G1]) -> Result<Run, String> {
    let st = Exec::new(false, prof);
    guard(|| {
        merlin::log::start();
        let mut comms = comms.to_vec();
        let mut t = Transcript::new(LABEL);
        let mut v = Verifier::new(&mut t);
        run_top(&mut v, ops, &st, &mut comms).unwrap();
        let ok = v.verify(proof, &g.g, &g.h, &g.G, &g.H).is_ok();
        let log = merlin::log::stop();
        let ncb = st.borrow().chals.len();
        Run { log, end: end_of(&mut t), ncb, ok }
    })
}
fn chals(l: &[Event]) -> Vec<Vec<u8>> {
    l.iter().filter_map(|e| if let Event::Challenge(_, b) = e { Some(b.clone()) } else { None }).collect()
}
pub fn c06(ctx: &Ctx) {
    let items: Vec<(usize, Vec<Op>)> = seqs(&alphabet(), ctx.b(3, 4)).into_iter().chain([sized(3, 2, 2), sized(0, 5, 1), sized(8, 0, 3), sized(7, 9, 2)]).enumerate().collect();
    ctx.par("prover and verifier transcripts", &items, |(i, ops)| {
        let g = gens(npad(ops));
        let prof = (*i % NPROF as usize) as u8;
        let r = (|| -> Result<(), String> {
            let (proof, comms, p) = log_prove(ops, prof, &g)?;
            let v = log_verify(ops, prof, &g, &proof, &comms)?;
            ctx.st(1);
            ctx.tr(p.log.len() as u64);
            ctx.tv(1);
            if p.log != v.log {
                let k = p.log.iter().zip(&v.log).position(|(a, b)| a != b);
                ctx.viol("transcripts", format!("prover and verifier transcripts differ at event {:?} on {}", k, sh(ops)));
            }
            ctx.check(p.end == v.end, "transcripts", || format!("final transcript states differ on {}", sh(ops)));
            let c = chals(&p.log);
            for a in 0..c.len() {
                ctx.check(c[a].len() >= 32, "challenge size", || format!("challenge of {} bytes on {}", c[a].len(), sh(ops)));
                for b in 0..a {
                    ctx.check(c[a] != c[b], "repeated challenge", || sh(ops));
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            ctx.viol("transcripts", format!("panic {} on {}", e, sh(ops)));
        }
    });
    // perturb every message; every challenge that must depend on it changes, earlier ones do not
    let mut shapes = vec![sized(0, 0, 1), sized(0, 0, 2), sized(0, 1, 0), vec![Op::Commit, Op::Rand(vec![Op::Con(1)])], sized(1, 0, 1), sized(2, 0, 2), sized(3, 2, 2), sized(0, 3, 1), vec![Op::Commit, Op::Pair, Op::Rand(vec![Op::Chal, Op::Con(1)]), Op::Alloc, Op::Rand(vec![Op::Chal])]];
    if ctx.thorough {
        shapes.extend(vec![sized(4, 4, 3), sized(9, 0, 2), sized(1, 1, 0), sized(0, 1, 4), sized(20, 13, 5)]);
    }
    let small = shapes.len();
    shapes.extend(vec![sized(0, 0, 0), sized(2, 0, 0), sized(0, 2, 0), sized(2, 0, 9)]);
    let some = small..shapes.len();
    // many rounds: their points only
    shapes.extend(ctx.b(vec![sized(33, 0, 1), sized(60, 5, 1), sized(200, 0, 0), sized(257, 0, 1)], vec![sized(33, 0, 1), sized(60, 5, 1), sized(0, 129, 1), sized(300, 0, 0), sized(400, 200, 1), sized(1025, 0, 1)]));
    for (si, ops) in shapes.iter().enumerate() {
        let g = gens(npad(ops));
        let (proof, comms, _) = match log_prove(ops, 3, &g) {
            Ok(x) => x,
            Err(e) => {
                ctx.viol("transcripts", format!("panic {} on {}", e, sh(ops)));
                continue;
            }
        };
        let base = RefProof::from_lib(&proof);
        let v0 = match log_verify(ops, 3, &g, &proof, &comms) {
            Ok(v) => v,
            Err(e) => {
                ctx.viol("transcripts", format!("panic {} on {}", e, sh(ops)));
                continue;
            }
        };
        let k = base.ls.len();
        let cb = v0.ncb;
        let total = cb + 5 + k;
        ctx.check(chals(&v0.log).len() == total, "challenge count", || format!("{} challenges, expected {} on {}", chals(&v0.log).len(), total, sh(ops)));
        // (what, proof, commitments, index of the first challenge that must change)
        let mut items: Vec<(String, RefProof, Vec<G1>, usize)> = vec![];
        for i in 0..comms.len() {
            for d in [g.g.clone(), g.h.clone()] {
                let mut c = comms.clone();
                c[i] = &c[i] + &d;
                items.push((format!("commitment {}", i), base.clone(), c, 0));
            }
            let mut c = comms.clone();
            c[i] = c[i].negation();
            items.push((format!("commitment {} negated", i), base.clone(), c, 0));
        }
        for i in 0..11 {
            let mut q = base.clone();
            q.pts[i] = &q.pts[i] + &g.g;
            items.push((PT[i].into(), q, comms.clone(), if i < 3 { 0 } else if i < 6 { cb } else { cb + 2 }));
            let mut q = base.clone();
            q.pts[i] = q.pts[i].negation();
            if !peq(&q.pts[i], &base.pts[i]) {
                items.push((format!("{} negated", PT[i]), q, comms.clone(), if i < 3 { 0 } else if i < 6 { cb } else { cb + 2 }));
            }
        }
        for i in 0..3 {
            // every byte of the scalar matters
            for j in 0..32u64 {
                let mut d = Fe::one();
                for _ in 0..j {
                    d = d * fe(256);
                }
                let mut q = base.clone();
                q.sc[i] = &q.sc[i] + d;
                items.push((format!("{} + 2^{}", SC[i], 8 * j), q, comms.clone(), cb + 4));
            }
            let mut q = base.clone();
            q.sc[i] = q.sc[i].negation();
            if !eq(&q.sc[i], &base.sc[i]) {
                items.push((format!("{} negated", SC[i]), q, comms.clone(), cb + 4));
            }
        }
        for i in 0..k {
            for (how, f) in [("+g", (|p: &G1, g: &G1| p + g) as fn(&G1, &G1) -> G1), ("negated", |p, _| p.negation())] {
                let mut q = base.clone();
                q.ls[i] = f(&q.ls[i], &g.g);
                if !peq(&q.ls[i], &base.ls[i]) {
                    items.push((format!("L[{}] {}", i, how), q, comms.clone(), cb + 5 + i));
                }
                let mut q = base.clone();
                q.rs[i] = f(&q.rs[i], &g.g);
                if !peq(&q.rs[i], &base.rs[i]) {
                    items.push((format!("R[{}] {}", i, how), q, comms.clone(), cb + 5 + i));
                }
            }
        }
        if si >= some.end {
            items.retain(|x| x.0.starts_with("L[") || x.0.starts_with("R["));
        }
        ctx.par("perturbed messages", &items, |(what, q, c, from)| {
            ctx.st(1);
            ctx.tv(1);
            match log_verify(ops, 3, &g, &q.lib(), c) {
                Ok(v) => {
                    let (a, b) = (chals(&v0.log), chals(&v.log));
                    ctx.tr(a.len() as u64);
                    if a.len() != b.len() {
                        return ctx.viol("dependency", format!("{}: {} challenges instead of {} on {}", what, b.len(), a.len(), sh(ops)));
                    }
                    for i in 0..a.len() {
                        ctx.check((a[i] != b[i]) == (i >= *from), "dependency", || format!("perturbing {} {} challenge {} (first dependent one is {}) on {}", what, if a[i] != b[i] { "changes" } else { "does not change" }, i, from, sh(ops)));
                    }
                    ctx.check(v.end != v0.end, "dependency", || format!("final state does not depend on {}", what));
                }
                Err(e) => ctx.viol("dependency", format!("panic {} perturbing {} on {}", e, what, sh(ops))),
            }
        });
        // commitment count and phase kind: same messages otherwise
        if let Ok(v) = log_verify(ops, 3, &g, &proof, &comms) {
            let has_rand = ops.iter().any(|o| matches!(o, Op::Rand(_)));
            if !has_rand {
                let mut o2 = ops.clone();
                o2.push(Op::Rand(vec![]));
                if let Ok(w) = log_verify(&o2, 3, &g, &proof, &comms) {
                    ctx.check(chals(&v.log).iter().zip(chals(&w.log).iter()).all(|(a, b)| a != b), "phase kind", || format!("challenges do not depend on the phase kind on {}", sh(ops)));
                }
            }
            let mut o2 = ops.clone();
            o2.insert(0, Op::Commit);
            let mut c2 = comms.clone();
            c2.push(ident());
            if let Ok(w) = log_verify(&o2, 3, &g, &proof, &c2) {
                ctx.check(chals(&v.log).iter().zip(chals(&w.log).iter()).all(|(a, b)| a != b), "commitment count", || sh(ops));
            }
        }
    }
    // commitments: every sequence of up to four over a few points, the identity among them, gives challenges of its own
    let g1 = gens(1);
    let alpha = vec![ident(), g1.g.clone(), g1.h.clone()];
    let mut seqs_: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < seqs_.len() {
        if seqs_[at].len() < ctx.b(4, 5) {
            for k in 0..alpha.len() {
                let mut v = seqs_[at].clone();
                v.push(k);
                seqs_.push(v);
            }
        }
        at += 1;
    }
    let ops0 = vec![Op::Commit, Op::Pair, Op::Con(0)];
    if let Ok((proof, _, _)) = log_prove(&ops0, 3, &gens(1)) {
        let seen: std::sync::Mutex<std::collections::HashMap<Vec<u8>, String>> = Default::default();
        ctx.par("commitment sequences", &seqs_, |ks| {
            let mut ops = vec![Op::Commit; ks.len()];
            ops.push(Op::Pair);
            let c: Vec<G1> = ks.iter().map(|k| alpha[*k].clone()).collect();
            ctx.st(1);
            ctx.tv(1);
            match log_verify(&ops, 3, &gens(1), &proof, &c) {
                Ok(v) => {
                    let names = format!("{:?}", ks);
                    for x in chals(&v.log) {
                        ctx.tr(1);
                        if let Some(o) = seen.lock().unwrap().insert(x, names.clone()) {
                            ctx.viol("commitment sequences", format!("commitments {} and {} (0 the identity, 1 g, 2 h) give the same challenge", o, names));
                        }
                    }
                }
                Err(e) => ctx.viol("commitment sequences", e),
            }
        });
        // proof points: every assignment of {identity, g} to the points of the proof
        let base = RefProof::from_lib(&proof);
        let all: Vec<usize> = (0..1usize << 11).collect();
        let seen: Vec<std::sync::Mutex<std::collections::HashMap<Vec<u8>, usize>>> = (0..8).map(|_| Default::default()).collect();
        ctx.par("proof points", &all, |m| {
            let mut q = base.clone();
            for i in 0..11 {
                q.pts[i] = if m >> i & 1 == 1 { g1.g.clone() } else { ident() };
            }
            ctx.st(1);
            ctx.tv(1);
            match log_verify(&ops0, 3, &gens(1), &q.lib(), &[g1.g.clone()]) {
                Ok(v) => {
                    for (i, x) in chals(&v.log).into_iter().enumerate().take(5) {
                        ctx.tr(1);
                        // y and z depend on the first six points, the rest on all
                        let k = if i < 2 { m & 63 } else { *m };
                        match seen[i].lock().unwrap().insert(x, k) {
                            Some(o) if o != k => ctx.viol("proof points", format!("points {:011b} and {:011b} (1 is g, 0 the identity; least significant first) give the same challenge {}", o, k, i)),
                            _ => {}
                        }
                    }
                }
                Err(e) => ctx.viol("proof points", e),
            }
        });
    }
    // the commitment count and the inner-product size themselves are absorbed before the first dependent challenge
    let mut items: Vec<(usize, usize)> = vec![(1, 0), (1, 3), (2, 1), (5, 2), (8, 2), (9, 1), (17, 2)];
    items.extend((0..ctx.b(40, 130)).map(|m| (2, m)));
    items.extend([(1, 63), (1, 64), (1, 65), (1, 127), (1, 128), (1, 129), (1, 255), (1, 256), (1, 257), (1, 300), (1, 512), (1, 1024)]);
    items.extend([33, 65, 129, 257].iter().map(|n| (*n, 1)));
    if ctx.thorough {
        items.extend([(513, 1), (1025, 1), (1, 4096), (1, 65536)]);
    }
    ctx.par("sizes absorbed", &items, |(n, m)| {
        let mut ops = vec![Op::Commit; *m];
        ops.extend(vec![Op::Pair; *n]);
        let pn = npad(&ops);
        let g = gens(pn);
        match log_prove(&ops, 0, &g) {
            Ok((_, _, r)) => {
                ctx.tr(1);
                let has = |upto: usize, x: u64| r.log[..upto].iter().any(|e| if let Event::Append(_, b) = e { b[..] == x.to_le_bytes() } else { false });
                let ci: Vec<usize> = (0..r.log.len()).filter(|i| matches!(r.log[*i], Event::Challenge(..))).collect();
                ctx.check(has(ci[0], *m as u64), "commitment count absorbed", || sh(&ops));
                if ci.len() > 5 {
                    let after_w = r.log[ci[4]..ci[5]].iter().any(|e| if let Event::Append(_, b) = e { b[..] == (pn as u64).to_le_bytes() } else { false });
                    ctx.check(after_w, "size absorbed", || sh(&ops));
                }
            }
            Err(e) => ctx.viol("sizes", e),
        }
    });
    // domain separation of the inner-product argument's size, on its own
    let items: Vec<(usize, usize)> = vec![(2, 4), (2, 8), (4, 8), (4, 16)];
    ctx.par("inner-product size", &items, |(a, b)| {
        let run = |n: usize| {
            let g = gens(n);
            let z: Vec<Fe> = vec![Fe::zero(); n];
            let one: Vec<Fe> = vec![Fe::one(); n];
            merlin::log::start();
            let mut t = Transcript::new(b"x");
            // all-zero vectors send identity points whatever the size
            let _ = IPP::create_ipp(&mut t, &g.g, &one.clone().into(), &one.clone().into(), &g.G, &g.H, &z.clone().into(), &z.clone().into());
            chals(&merlin::log::stop())
        };
        let (x, y) = (run(*a), run(*b));
        ctx.tr(1);
        ctx.check(x[0] != y[0], "inner-product size", || format!("first challenge the same for n={} and n={}", a, b));
    });
}

// ---------------------------------------------------------------- C07
/// small linear relations among points: coefficient vectors over {-2..2} on pairs, {-1,0,1} on triples
pub fn independent(ctx: &Ctx, key: &str, pts: &[(String, G1)], what: &str) {
    for (n, p) in pts {
        ctx.tr(1);
        ctx.check(!p.is_identity(), key, || format!("{}: {} carries no blinding", what, n));
    }
    let same = |a: &G1, b: &G1| peq(a, b);
    for i in 0..pts.len() {
        for j in 0..i {
            let (a, b) = (&pts[i].1, &pts[j].1);
            ctx.tr(1);
            let rel = same(a, b) || same(a, &b.negation()) || same(&(a + a), b) || same(a, &(b + b)) || same(&(a + a), &b.negation()) || same(&a.negation(), &(b + b));
            ctx.check(!rel, key, || format!("{}: {} and {} have related blindings", what, pts[i].0, pts[j].0));
            for k in 0..j {
                let c = &pts[k].1;
                let s = a + b;
                let d = a - b;
                let rel = same(&s, c) || same(&s, &c.negation()) || same(&d, c) || same(&d, &c.negation());
                ctx.check(!rel, key, || format!("{}: {}, {} and {} have related blindings", what, pts[i].0, pts[j].0, pts[k].0));
            }
        }
    }
}
fn small_multiples(b: &G1, n: usize) -> std::collections::HashSet<Vec<u8>> {
    let mut s = std::collections::HashSet::new();
    let mut p = b.clone();
    for _ in 0..n {
        s.insert(p.to_bytes());
        s.insert(p.negation().to_bytes());
        p = &p + b;
    }
    s
}
fn deg(g: &Gens, keep_g: bool, keep_h: bool, gi: &[(usize, i8)], hi: &[(usize, i8)], b: &G1) -> Gens {
    let n = g.G.len();
    let f = |s: i8| if s > 0 { b.clone() } else { b.negation() };
    let mut gv = vec![ident(); n];
    let mut hv = vec![ident(); n];
    for (i, s) in gi {
        gv[*i] = f(*s);
    }
    for (i, s) in hi {
        hv[*i] = f(*s);
    }
    Gens { g: if keep_g { g.g.clone() } else { ident() }, h: if keep_h { g.h.clone() } else { ident() }, G: gv.into(), H: hv.into() }
}
pub fn c07(ctx: &Ctx) {
    let mut shapes: Vec<(Vec<Op>, usize, usize)> = vec![(sized(1, 0, 1), 1, 0), (sized(2, 0, 0), 2, 0), (sized(3, 2, 2), 3, 2), (sized(0, 3, 1), 0, 3), (sized(0, 1, 1), 0, 1), (sized(2, 1, 0), 2, 1), (sized(0, 0, 2), 0, 0)];
    if ctx.thorough {
        shapes.extend(vec![(sized(4, 4, 1), 4, 4), (sized(8, 1, 2), 8, 1), (sized(1, 7, 0), 1, 7)]);
    }
    shapes.extend(vec![(sized(5, 0, 1), 5, 0), (sized(9, 0, 1), 9, 0), (sized(4, 5, 1), 4, 5), (sized(0, 9, 0), 0, 9)]);
    let table = small_multiples(&gens(1).h, ctx.b(2000, 20000));
    relations(ctx);
    short_blindings(ctx);
    large_masks(ctx);
    for (si, (ops, n1, n2)) in shapes.iter().enumerate() {
        let g = gens(npad(ops));
        let reps = ctx.b(3, 6);
        // 1. only h survives: what is left of each point is its blinding
        let dh = deg(&g, false, true, &[], &[], &g.g);
        let mut all: Vec<(String, G1)> = vec![];
        for rep in 0..reps {
            for prof in [0u8, 4] {
                let Some(p) = proof_of(ctx, ops, prof, &dh) else { continue };
                ctx.st(1);
                ctx.tv(1);
                for (i, q) in p.pts.iter().enumerate() {
                    let phase2 = (3..6).contains(&i);
                    if phase2 && *n2 == 0 {
                        continue;
                    }
                    all.push((format!("{} (proof {} profile {})", PT[i], rep, prof), q.clone()));
                    ctx.check(!table.contains(&q.to_bytes()), "small blinding", || format!("{} has a small blinding on {}", PT[i], sh(ops)));
                }
            }
        }
        // all relations within one proof and across proofs
        let chunk = if *n2 > 0 { 11 } else { 8 };
        if all.len() >= 2 * chunk {
            let lim = all.len().min(ctx.b(2, 4) * chunk);
            independent(ctx, "blinding", &all[..lim], &sh(ops));
            for i in 0..all.len() {
                for j in 0..i {
                    ctx.check(!peq(&all[i].1, &all[j].1), "blinding reused", || format!("{} and {} on {}", all[i].0, all[j].0, sh(ops)));
                }
            }
        }
        // 2. only one or two of the vector bases survive: what is left of S is the mask entry (or a combination of two)
        let base = G1::from_msg_hash(b"mc mask base");
        let mtable = small_multiples(&base, 2000);
        let n = n1 + n2;
        let mut items: Vec<Vec<(usize, i8)>> = vec![];
        let m = 2 * n;
        for i in 0..m {
            items.push(vec![(i, 1)]);
            for j in 0..i {
                if m <= ctx.b(10, 20) || j + 1 == i || j + n == i || (i - j).is_power_of_two() || j == 0 || i + 1 == n || i + 1 == m || j == n {
                    items.push(vec![(i, 1), (j, -1)]);
                    items.push(vec![(i, 1), (j, 1)]);
                }
            }
        }
        ctx.par("mask entries", &items, |sel| {
            let gi: Vec<(usize, i8)> = sel.iter().filter(|(i, _)| *i < n).cloned().collect();
            let hi: Vec<(usize, i8)> = sel.iter().filter(|(i, _)| *i >= n).map(|(i, s)| (i - n, *s)).collect();
            let d = deg(&g, false, false, &gi, &hi, &base);
            let Some(p) = proof_of(ctx, ops, 3, &d) else { return };
            let Some(q) = proof_of(ctx, ops, 3, &d) else { return };
            ctx.st(1);
            ctx.tr(2);
            ctx.tv(2);
            let phase = |i: usize| if (i % n) < *n1 { 2usize } else { 5usize };
            let ph: Vec<usize> = sel.iter().map(|(i, _)| phase(*i)).collect();
            for k in &ph {
                ctx.check(!p.pts[*k].is_identity(), "mask", || format!("{}: mask entries {:?} vanish or are related on {}", PT[*k], sel, sh(ops)));
                ctx.check(!peq(&p.pts[*k], &q.pts[*k]) && !peq(&p.pts[*k], &q.pts[*k].negation()), "mask reused", || format!("{}: mask entries {:?} repeat on {}", PT[*k], sel, sh(ops)));
                ctx.check(!mtable.contains(&p.pts[*k].to_bytes()), "small mask", || format!("{}: small mask entry {:?} on {}", PT[*k], sel, sh(ops)));
            }
            if ph.len() == 2 && ph[0] != ph[1] {
                let (a, b) = (&p.pts[ph[0]], &p.pts[ph[1]]);
                ctx.check(!peq(a, b) && !peq(a, &b.negation()), "mask", || format!("masks of the two phases related at {:?} on {}", sel, sh(ops)));
            }
        });
        // 3. real generators: two proofs of the same statement share nothing
        let (a, b) = (proof_of(ctx, ops, 3, &g), proof_of(ctx, ops, 3, &g));
        if let (Some(a), Some(b)) = (a, b) {
            ctx.tr(1);
            for i in 0..11 {
                if !((3..6).contains(&i) && *n2 == 0) {
                    for j in 0..11 {
                        ctx.check(!peq(&a.pts[i], &b.pts[j]), "shared component", || format!("{} = {} in two proofs of {}", PT[i], PT[j], sh(ops)));
                    }
                }
            }
            for i in 0..3 {
                if i == 0 && n == 0 {
                    continue; // t(x) is the zero polynomial without gates
                }
                ctx.check(!eq(&a.sc[i], &b.sc[i]) && !a.sc[i].is_zero(), "shared component", || format!("{} in two proofs of {}", SC[i], sh(ops)));
            }
            if n > 0 {
                ctx.check(!eq(&a.a, &b.a) && !eq(&a.b, &b.b), "shared component", || format!("a or b in two proofs of {}", sh(ops)));
                for i in 0..a.ls.len() {
                    ctx.check(!peq(&a.ls[i], &b.ls[i]) && !peq(&a.rs[i], &b.rs[i]), "shared component", || format!("L/R {} in two proofs of {}", i, sh(ops)));
                }
            }
            ctx.sample(|| format!("shape {} ({}): all blindings distinct over {} proofs", si, sh(ops), 2 * reps));
        }
        // 4. t(x) coefficients are committed with g present but their blinding decides: T_i without h reveal t_i, with h hide
        let dg = deg(&g, true, false, &[], &[], &g.g);
        let _ = dg;
    }
    crate::g5::hiding(ctx);
}
/// With only h left, every point of the proof is its blinding times h. No blinding is a public multiple of
/// another one, of a witness value, of a caller's blinding or of a challenge.
fn relations(ctx: &Ctx) {
    let mut items: Vec<(Vec<Op>, u8)> = vec![];
    for (a, b, m) in [(1, 0, 1), (2, 0, 2), (1, 1, 1), (0, 2, 1), (3, 2, 2), (9, 3, 1), (17, 0, 2), (0, 0, 1), (16, 1, 0), (33, 0, 1), (0, 40, 1), (30, 35, 6), (129, 0, 1), (100, 200, 1)] {
        for prof in [0u8, 3] {
            items.push((sized(a, b, m), prof));
        }
    }
    // one gate and no constraint: the last message of the inner-product argument reveals the mask entries,
    // which join the comparison
    let single = [vec![Op::Commit, Op::Pair], vec![Op::Pair], vec![Op::Commit, Op::Rand(vec![Op::Pair])], vec![Op::Rand(vec![Op::Pair])]];
    for ops in &single {
        items.push((ops.clone(), 0));
        items.push((ops.clone(), 3));
    }
    ctx.par("relations between blindings", &items, |(ops, prof)| {
        let g = gens(npad(ops));
        let dh = deg(&g, false, true, &[], &[], &g.g);
        let (proof, comms, run) = match log_prove(ops, *prof, &dh) {
            Ok(x) => x,
            Err(e) => return ctx.viol("prove", format!("{} on {}", e, sh(ops))),
        };
        let p = RefProof::from_lib(&proof);
        let ch: Vec<Fe> = chals(&run.log).iter().filter(|b| b.len() == 48).map(|b| { let mut a = [0u8; 48]; a.copy_from_slice(b); Fe::from(&a) }).collect();
        for i in 0..11 {
            let absent = (3..6).contains(&i) && !ops.iter().any(|o| matches!(o, Op::Rand(b) if b.iter().any(|x| matches!(x, Op::Alloc | Op::Single | Op::Pair | Op::Mul(_)))));
            ctx.check(absent || !p.pts[i].is_identity(), "no blinding", || format!("{} carries no blinding on {}", PT[i], sh(ops)));
        }
        // factors a reader of the proof knows
        let mut pubs: Vec<(String, Fe)> = vec![];
        for k in 1..=ctx.b(24u64, 200) {
            pubs.push((k.to_string(), fe(k)));
        }
        for k in [32, 64, 100, 128, 256, 512, 1000, 1024, 65536] {
            pubs.push((k.to_string(), fe(k)));
        }
        for (i, c) in ch.iter().enumerate().take(8) {
            pubs.push((format!("challenge {}", i), c.clone()));
            pubs.push((format!("challenge {} squared", i), c.square()));
            pubs.push((format!("challenge {} cubed", i), c.square() * c));
            if i > 0 {
                pubs.push((format!("challenge {} * {}", i, i - 1), c * &ch[i - 1]));
            }
        }
        let pts: Vec<(String, G1)> = (0..11).filter(|i| !p.pts[*i].is_identity()).map(|i| (PT[i].to_string(), p.pts[i].clone())).chain(comms.iter().enumerate().map(|(i, c)| (format!("commitment {}", i), c.clone()))).collect();
        let mut pts = pts;
        if single.contains(ops) {
            // recovery first shown right on a proof whose S is the left mask entry alone
            let base = G1::from_msg_hash(b"mc mask base");
            let d = deg(&g, false, false, &[(0, 1)], &[], &base);
            let right = log_prove(ops, *prof, &d).ok().and_then(|(q, _, run)| {
                let q = RefProof::from_lib(&q);
                let k = if ops.iter().any(|o| matches!(o, Op::Rand(_))) { 5 } else { 2 };
                masks_of(ops, *prof, &q, &run).map(|(sl, _)| peq(&q.pts[k], &(&base * &sl)))
            });
            if right == Some(true) {
                if let Some((sl, sr)) = masks_of(ops, *prof, &p, &run) {
                    ctx.count("mask entries recovered", 2);
                    ctx.check(!sl.is_zero() && !sr.is_zero(), "mask", || format!("vanishing mask on {}", sh(ops)));
                    pts.push(("s_L".into(), &g.h * &sl));
                    pts.push(("s_R".into(), &g.h * &sr));
                }
            }
        }
        let mut tab: std::collections::HashMap<Vec<u8>, Vec<(usize, String)>> = std::collections::HashMap::new();
        for (i, (_, q)) in pts.iter().enumerate() {
            for (w, c) in &pubs {
                let x = q * c;
                ctx.tr(1);
                tab.entry(x.negation().to_bytes()).or_default().push((i, format!("-{}", w)));
                tab.entry(x.to_bytes()).or_default().push((i, w.clone()));
            }
        }
        ctx.st(1);
        ctx.tv(1);
        for (i, (n, q)) in pts.iter().enumerate() {
            for (j, w) in tab.get(&q.to_bytes()).into_iter().flatten() {
                if *j != i {
                    ctx.viol("related", format!("the blinding of {} is {} times that of {} on {}", n, w, pts[*j].0, sh(ops)));
                }
            }
        }
        // sums and differences of two are not a third
        let sums: std::collections::HashMap<Vec<u8>, usize> = pts.iter().enumerate().flat_map(|(i, (_, q))| vec![(q.to_bytes(), i), (q.negation().to_bytes(), i)]).collect();
        for i in 0..pts.len() {
            for j in 0..i {
                for x in [&pts[i].1 + &pts[j].1, &pts[i].1 - &pts[j].1] {
                    ctx.tr(1);
                    if let Some(k) = sums.get(&x.to_bytes()) {
                        ctx.viol("related", format!("blindings of {}, {} and {} are related on {}", pts[i].0, pts[j].0, pts[*k].0, sh(ops)));
                    }
                }
            }
        }
        // nor are they values the circuit or its challenges already contain
        let st = Exec::new(true, *prof);
        let mut known: Vec<Fe> = (0..40).map(|i| pval(*prof, i)).chain((0..8).map(blind)).chain(ch.iter().cloned()).collect();
        let extra: Vec<Fe> = known.iter().map(|x| x.inverse()).chain(known.iter().map(|x| x.square())).collect();
        known.extend(extra);
        let _ = st;
        let kt: std::collections::HashSet<Vec<u8>> = known.iter().filter(|x| !x.is_zero()).flat_map(|x| { let q = &g.h * x; vec![q.to_bytes(), q.negation().to_bytes()] }).collect();
        for i in 0..11 {
            ctx.tr(1);
            ctx.check(p.pts[i].is_identity() || !kt.contains(&p.pts[i].to_bytes()), "known blinding", || format!("the blinding of {} is a value the statement or the transcript contains on {}", PT[i], sh(ops)));
        }
    });
}
/// the mask entries of a one-gate circuit without constraints, from the vectors the argument ends with
fn masks_of(ops: &[Op], prof: u8, p: &RefProof, run: &Run) -> Option<(Fe, Fe)> {
    let ch: Vec<Fe> = chals(&run.log).iter().filter(|b| b.len() == 48).map(|b| { let mut a = [0u8; 48]; a.copy_from_slice(b); Fe::from(&a) }).collect();
    if ch.len() < 5 {
        return None;
    }
    let first = ops.iter().filter(|o| **o == Op::Commit).count();
    let (l, r) = (pval(prof, first), pval(prof, first + 1));
    let x = &ch[ch.len() - 2];
    let x3 = (x.square() * x).inverse();
    Some(((&p.a - &l * x - &l * &r * x.square()) * &x3, (&p.b - &r * x + Fe::one()) * &x3))
}
/// No blinding lies in the interval (-2^32, 2^32): baby steps, giant steps.
fn short_blindings(ctx: &Ctx) {
    let mut pts: Vec<(String, G1)> = vec![];
    let h = gens(1).h;
    for (a, b) in [(1usize, 1usize)] {
        let ops = sized(a, b, 1);
        let g = gens(npad(&ops));
        let dh = deg(&g, false, true, &[], &[], &g.g);
        if let Some(p) = proof_of(ctx, &ops, 3, &dh) {
            for i in 0..11 {
                pts.push((format!("blinding of {}", PT[i]), p.pts[i].clone()));
            }
        }
        for (gi, hi, k) in [(vec![(0usize, 1i8)], vec![], 2usize), (vec![], vec![(0, 1)], 2), (vec![(1, 1)], vec![], 5), (vec![], vec![(1, 1)], 5)] {
            let d = deg(&g, false, false, &gi, &hi, &h);
            if let Some(p) = proof_of(ctx, &ops, 3, &d) {
                pts.push((format!("mask entry in {} ({:?} {:?})", PT[k], gi, hi), p.pts[k].clone()));
            }
        }
    }
    const B: usize = 1 << 16;
    let chunks: Vec<usize> = (0..32).collect();
    let baby = std::sync::Mutex::new(std::collections::HashSet::with_capacity(2 * B));
    ctx.par("baby steps", &chunks, |c| {
        let mut x = &h * &fe((c * (B / 32)) as u64 + 1);
        let mut v = vec![];
        for _ in 0..B / 32 {
            v.push(x.to_bytes());
            v.push(x.negation().to_bytes());
            x = &x + &h;
        }
        baby.lock().unwrap().extend(v);
    });
    let baby = baby.into_inner().unwrap();
    let step = &h * &fe(B as u64);
    let mut items = vec![];
    for i in 0..pts.len() {
        for c in 0..8usize {
            items.push((i, c));
        }
    }
    ctx.par("short blindings", &items, |(i, c)| {
        // baby tables hold both signs, so subtracting and adding covers both halves of the interval
        let start = &h * &fe((c * (B / 8) * B) as u64);
        let (mut x, mut y) = (&pts[*i].1 - &start, &pts[*i].1 + &start);
        for _ in 0..B / 8 {
            if x.is_identity() || y.is_identity() || baby.contains(&x.to_bytes()) || baby.contains(&y.to_bytes()) {
                return ctx.viol("short blinding", format!("{} is shorter than 33 bits", pts[*i].0));
            }
            x = &x - &step;
            y = &y + &step;
        }
        ctx.tr(B as u64 / 4);
    });
    ctx.st(pts.len() as u64);
}
/// mask entries of larger circuits: neighbours, ends and power-of-two distances
fn large_masks(ctx: &Ctx) {
    let base = G1::from_msg_hash(b"mc mask base");
    let mut items = vec![];
    for (n1, n2) in ctx.b(vec![(17usize, 0usize), (0, 17), (20, 13)], vec![(17, 0), (0, 17), (20, 13), (33, 0), (0, 40), (64, 1)]) {
        let n = n1 + n2;
        for i in 0..2 * n {
            items.push((n1, n2, vec![(i, 1i8)]));
            for j in 0..i {
                if j + n == i || j + 1 == i || (i - j).is_power_of_two() && i < n && j == 0 || (j == 0 || j == n) && (i + 1 == n || i + 1 == 2 * n) {
                    items.push((n1, n2, vec![(i, 1), (j, -1)]));
                }
            }
        }
    }
    // the last entries of each half against every other one
    for (n1, n2) in ctx.b(vec![(70usize, 0usize), (0, 70)], vec![(70, 0), (0, 70), (40, 40), (130, 0), (0, 130)]) {
        let n = n1 + n2;
        for i in [n - 1, 2 * n - 1] {
            for j in 0..i {
                items.push((n1, n2, vec![(i, 1), (j, -1)]));
            }
        }
    }
    ctx.par("mask entries, larger circuits", &items, |(n1, n2, sel)| {
        let n = n1 + n2;
        let ops = sized(*n1, *n2, 1);
        let g = gens(npad(&ops));
        let gi: Vec<(usize, i8)> = sel.iter().filter(|(i, _)| *i < n).cloned().collect();
        let hi: Vec<(usize, i8)> = sel.iter().filter(|(i, _)| *i >= n).map(|(i, s)| (i - n, *s)).collect();
        let d = deg(&g, false, false, &gi, &hi, &base);
        let Some(p) = proof_of(ctx, &ops, 3, &d) else { return };
        ctx.st(1);
        ctx.tv(1);
        for (i, _) in sel {
            let k = if (i % n) < *n1 { 2usize } else { 5 };
            ctx.check(!p.pts[k].is_identity(), "mask", || format!("{}: mask entries {:?} vanish or are related on {}+{} gates", PT[k], sel, n1, n2));
        }
        if sel.len() == 2 {
            let ph = |i: usize| if (i % n) < *n1 { 2usize } else { 5 };
            let (a, b) = (ph(sel[0].0), ph(sel[1].0));
            ctx.check(a == b || !(peq(&p.pts[a], &p.pts[b]) || peq(&p.pts[a], &p.pts[b].negation())), "mask", || format!("masks of the two phases related at {:?}", sel));
        }
    });
}
fn proof_of(ctx: &Ctx, ops: &[Op], prof: u8, g: &Gens) -> Option<RefProof> {
    match real_prove(ops, prof, g) {
        Ok(Ok(m)) => Some(RefProof::from_lib(&m.proof)),
        Ok(Err((e, _))) => {
            ctx.viol("prove", format!("prover error {:?} on {}", e, sh(ops)));
            None
        }
        Err(e) => {
            ctx.viol("prove", format!("prover panic {} on {}", e, sh(ops)));
            None
        }
    }
}

// ---------------------------------------------------------------- C09
pub fn c09(ctx: &Ctx) {
    let alpha = vec![Op::Commit, Op::Mul(0), Op::Mul(1), Op::Alloc, Op::Single, Op::Pair, Op::Con(1), Op::MissAlloc, Op::MissPair];
    let depth = ctx.b(5, 6);
    let progs = seqs(&alpha, depth);
    let g = gens(1);
    let run = |ops: &[Op], prof: u8| {
        let sp = Exec::new(true, prof);
        let sv = Exec::new(false, prof);
        let mut comms = vec![];
        let mut tp = Transcript::new(LABEL);
        let mut p = Prover::new(&g.g, &g.h, &mut tp);
        let rp = run_top(&mut p, ops, &sp, &mut comms);
        let mut tv = Transcript::new(LABEL);
        let mut v = Verifier::new(&mut tv);
        let rv = run_top(&mut v, ops, &sv, &mut comms);
        ctx.st(1);
        ctx.tr(sp.borrow().steps + sv.borrow().steps);
        ctx.tv(2);
        ctx.check(rp.is_ok() && rv.is_ok(), "lockstep", || format!("errors {:?} {:?} on {}", rp, rv, sh(ops)));
        // evaluation of every kind of combination over everything there is
        {
            let vars: Vec<_> = sp.borrow().vars.iter().rev().take(9).map(|x| x.0).collect();
            let mut lcs = vec![LC::default(), LC::from(fe(0)), LC::from(fe(7)), LC::from(Variable::One()), sp.borrow().sum_all(), sp.borrow().sum_all() - fe(3)];
            for x in &vars {
                lcs.push(LC::from(*x));
                lcs.push(fe(0) * LC::from(*x));
                lcs.push(LC::from(fe(5)) - LC::from(*x) + *x);
            }
            for lc in &lcs {
                check_eval(&p, &sp, lc);
                check_eval(&v, &sv, lc);
            }
        }
        let (a, b) = (sp.borrow(), sv.borrow());
        for x in a.problems.iter().chain(b.problems.iter()) {
            ctx.viol("lockstep", format!("{} on {} profile {}", x, sh(ops), prof));
        }
        ctx.check(a.handles == b.handles, "handles", || format!("prover {:?} verifier {:?} on {}", a.handles, b.handles, sh(ops)));
        ctx.check(p.num_multipliers() == a.l.len(), "num_multipliers", || sh(ops));
        ctx.check(p.num_constraints() == a.cons.len(), "num_constraints", || format!("{} instead of {} on {}", p.num_constraints(), a.cons.len(), sh(ops)));
        #[cfg(mc_hooks)]
        {
            let (pc, [l, r, o, vv, _]) = p.mc_view();
            let (vc, n, _) = v.mc_view();
            let same = |x: &[Fe], y: &FeV| x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| eq(a, b));
            ctx.check(n == a.l.len(), "verifier variables", || format!("{} instead of {} on {}", n, a.l.len(), sh(ops)));
            ctx.check(same(&a.l, &l) && same(&a.r, &r) && same(&a.o, &o) && same(&a.v, &vv), "assignments", || format!("prover wires differ from the model on {} profile {}", sh(ops), prof));
            // the same linear functions of the same variables, in the same order
            ctx.check(pc.len() == a.cons.len() && vc.len() == a.cons.len(), "constraints", || format!("prover {} verifier {} model {} on {}", pc.len(), vc.len(), a.cons.len(), sh(ops)));
            for ((x, y), z) in pc.iter().zip(&vc).zip(&a.cons) {
                ctx.check(lc_norm(x) == lc_norm(z) && lc_norm(y) == lc_norm(z), "constraints", || format!("constraint differs on {}", sh(ops)));
            }
        }
    };
    let items: Vec<(usize, Vec<Op>)> = progs.into_iter().enumerate().collect();
    ctx.par("phase-one sequences", &items, |(i, ops)| {
        GIVE.with(|g| g.set(i % 2 == 1));
        run(ops, (*i % NPROF as usize) as u8);
        if i % 4001 == 0 {
            ctx.sample(|| sh(ops));
        }
    });
    // deeper sequences of allocations only
    let al = vec![Op::Alloc, Op::Single, Op::Pair, Op::Mul(1), Op::MissAlloc];
    let items: Vec<(usize, Vec<Op>)> = seqs(&al, ctx.b(6, 8)).into_iter().enumerate().collect();
    ctx.par("allocation sequences", &items, |(i, ops)| run(ops, (*i % NPROF as usize) as u8));
    // many gates of one kind, an open one among them at every place
    let mut items: Vec<(usize, Vec<Op>)> = vec![];
    for n in ctx.b(vec![20usize, 41, 66, 130, 260], vec![20, 41, 66, 130, 260, 520, 1100]) {
        for o in [Op::Alloc, Op::Single, Op::Pair, Op::Mul(0), Op::Mul(1)] {
            for p in 0..NPROF as usize {
                let mut v = vec![Op::Commit, Op::Commit];
                v.extend(vec![o.clone(); n]);
                items.push((p, v));
            }
        }
    }
    for n in [17usize, 40, 70] {
        for k in 0..n {
            let mut v = vec![Op::Commit];
            for i in 0..n {
                v.push(if i == k { Op::MissAlloc } else if i % 2 == 0 { Op::Alloc } else { Op::Pair });
            }
            items.push((if k % 2 == 0 { 5 } else { 3 }, v));
        }
    }
    ctx.par("long allocation sequences", &items, |(i, ops)| run(ops, (*i % NPROF as usize) as u8));
    // phase-two sequences, proved and verified so that the callbacks run on both sides
    let a2 = vec![Op::Mul(0), Op::Alloc, Op::Single, Op::Pair, Op::Chal, Op::MissAlloc, Op::MissPair];
    let mut items = vec![];
    for (i, b) in seqs(&a2, ctx.b(3, 4)).into_iter().enumerate() {
        let pre = match i % 4 {
            0 => vec![Op::Commit, Op::Alloc],
            1 => vec![Op::Single],
            2 => vec![],
            _ => vec![Op::Pair, Op::Con(1)],
        };
        let mut ops = pre.clone();
        if i % 3 == 0 && b.len() >= 2 {
            // split over two callbacks: a half-allocated pair carries over
            let (x, y) = b.split_at(b.len() / 2);
            ops.push(Op::Rand(x.to_vec()));
            ops.push(Op::Rand(y.to_vec()));
        } else {
            ops.push(Op::Rand(b.clone()));
        }
        if i % 5 == 0 {
            ops.push(Op::Alloc);
        }
        ops.push(Op::Con(1));
        items.push((i, ops));
    }
    ctx.par("phase-two sequences", &items, |(i, ops)| {
        let prof = (*i % NPROF as usize) as u8;
        GIVE.with(|g| g.set(i % 2 == 1));
        let g = gens(npad(ops));
        let m = match real_prove(ops, prof, &g) {
            Ok(Ok(m)) => m,
            x => return ctx.viol("phase two", format!("prover {:?} on {}", x.err(), sh(ops))),
        };
        ctx.st(1);
        ctx.tr(m.st.borrow().steps * 2);
        ctx.tv(2);
        match real_verify(ops, prof, &g, &m.proof, &m.comms, LABEL) {
            Ok((r, sv)) => {
                ctx.check(r.is_ok(), "phase two", || format!("rejected {:?} {}", r, sh(ops)));
                let (a, b) = (m.st.borrow(), sv.borrow());
                for x in a.problems.iter().chain(b.problems.iter()) {
                    ctx.viol("lockstep", format!("{} on {}", x, sh(ops)));
                }
                ctx.check(a.handles == b.handles, "handles", || format!("prover {:?} verifier {:?} on {}", a.handles, b.handles, sh(ops)));
            }
            Err(e) => ctx.viol("phase two", format!("panic {} on {}", e, sh(ops))),
        }
    });
}
/// canonical form of a linear combination
pub fn lc_norm(lc: &bulletproofs_amcl::r1cs::linear_combination::LinearCombination) -> Vec<(String, Vec<u8>)> {
    let mut m: std::collections::BTreeMap<String, Fe> = Default::default();
    for (v, c) in &lc.terms {
        let e = m.entry(format!("{:?}", v)).or_insert(Fe::zero());
        *e = &*e + c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).map(|(k, c)| (k, key(&c))).collect()
}

// ---------------------------------------------------------------- C10
pub fn c10(ctx: &Ctx) {
    let mut bs = bodies();
    bs.push(Op::Rand(vec![Op::Rand(vec![Op::Rand(vec![Op::Chal])]), Op::Rand(vec![]), Op::Chal]));
    bs.push(Op::Rand(vec![Op::Chal, Op::Chal, Op::Mul(0)]));
    let mut alpha = bs.clone();
    alpha.push(Op::Commit);
    alpha.push(Op::Alloc);
    alpha.push(Op::Mul(1));
    let items: Vec<(usize, Vec<Op>)> = seqs(&alpha, ctx.b(3, 4)).into_iter().filter(|o| o.iter().any(|x| matches!(x, Op::Rand(_)))).enumerate().collect();
    ctx.par("callback schedules", &items, |(i, ops)| {
        let prof = (*i % NPROF as usize) as u8;
        let g = gens(npad(ops));
        let m = match real_prove(ops, prof, &g) {
            Ok(Ok(m)) => m,
            Ok(Err((e, _))) => return ctx.viol("callbacks", format!("prover error {:?} on {}", e, sh(ops))),
            Err(e) => return ctx.viol("callbacks", format!("prover panic {} on {}", e, sh(ops))),
        };
        ctx.st(1);
        ctx.tr(m.st.borrow().steps * 2);
        ctx.tv(2);
        ctx.check(top_order_ok(ops, &m.st), "order", || format!("prover order {:?} on {}", m.st.borrow().order, sh(ops)));
        for x in &m.st.borrow().problems {
            ctx.viol("callbacks", format!("prover: {} on {}", x, sh(ops)));
        }
        match real_verify(ops, prof, &g, &m.proof, &m.comms, LABEL) {
            Ok((r, sv)) => {
                ctx.check(r.is_ok(), "callbacks", || format!("rejected {:?} on {}", r, sh(ops)));
                ctx.check(top_order_ok(ops, &sv), "order", || format!("verifier order {:?} on {}", sv.borrow().order, sh(ops)));
                for x in &sv.borrow().problems {
                    ctx.viol("callbacks", format!("verifier: {} on {}", x, sh(ops)));
                }
                let (a, b) = (m.st.borrow(), sv.borrow());
                ctx.check(a.order == b.order, "order", || format!("prover {:?} verifier {:?} on {}", a.order, b.order, sh(ops)));
                ctx.check(a.n1 == b.n1, "phase one size", || sh(ops));
                ctx.check(a.chals.len() == b.chals.len() && a.chals.iter().zip(&b.chals).all(|(x, y)| eq(x, y)), "challenges", || format!("differ between prover and verifier on {}", sh(ops)));
                for x in 0..a.chals.len() {
                    ctx.check(!a.chals[x].is_zero(), "challenges", || format!("zero challenge on {}", sh(ops)));
                    for y in 0..x {
                        ctx.check(!eq(&a.chals[x], &a.chals[y]), "challenges", || format!("repeated challenge on {}", sh(ops)));
                    }
                }
            }
            Err(e) => ctx.viol("callbacks", format!("verifier panic {} on {}", e, sh(ops))),
        }
        // a challenge depends on every first-phase commitment
        if !m.st.borrow().chals.is_empty() && (i % ctx.b(7, 1) == 0) {
            let base = RefProof::from_lib(&m.proof);
            let c0 = m.st.borrow().chals.clone();
            let again = |q: &RefProof, c: &[G1]| real_verify(ops, prof, &g, &q.lib(), c, LABEL).map(|r| r.1.borrow().chals.clone());
            for k in 0..3 {
                let mut q = base.clone();
                q.pts[k] = &q.pts[k] + &g.g;
                match again(&q, &m.comms) {
                    Ok(c) => {
                        ctx.check(c.len() == c0.len() && c.iter().zip(&c0).all(|(x, y)| !eq(x, y)), "challenge dependency", || format!("callback challenges do not depend on {} on {}", PT[k], sh(ops)));
                    }
                    Err(e) => ctx.viol("challenge dependency", e),
                }
            }
            for k in 0..m.comms.len() {
                let mut c = m.comms.clone();
                c[k] = &c[k] + &g.h;
                match again(&base, &c) {
                    Ok(c) => {
                        ctx.check(c.iter().zip(&c0).all(|(x, y)| !eq(x, y)), "challenge dependency", || format!("callback challenges do not depend on commitment {} on {}", k, sh(ops)));
                    }
                    Err(e) => ctx.viol("challenge dependency", e),
                }
            }
            for k in 3..11 {
                let mut q = base.clone();
                q.pts[k] = &q.pts[k] + &g.g;
                if let Ok(c) = again(&q, &m.comms) {
                    ctx.check(c.iter().zip(&c0).all(|(x, y)| eq(x, y)), "challenge dependency", || format!("callback challenges depend on the later {} on {}", PT[k], sh(ops)));
                }
            }
        }
        if i % 97 == 0 {
            ctx.sample(|| sh(ops));
        }
    });
    // many callbacks, and callbacks after many constraints and gates
    let mut big: Vec<(String, Vec<Op>)> = vec![];
    for k in ctx.b(vec![1usize, 4, 5, 7, 8, 9, 12, 16, 17, 32, 33, 65, 100], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300]) {
        for body in [vec![Op::Chal], vec![Op::Con(1)], vec![Op::Single, Op::Con(1)], vec![Op::Rand(vec![Op::Con(0)]), Op::Chal]] {
            let mut ops = vec![Op::Commit, Op::Pair];
            ops.extend((0..k).map(|_| Op::Rand(body.clone())));
            big.push((format!("{} callbacks {}", k, sh(&body)), ops));
        }
    }
    for k in ctx.b(vec![50usize, 300, 1100, 4200], vec![50, 300, 600, 1100, 2100, 4200, 9000]) {
        let mut ops = vec![Op::Commit, Op::Pair];
        ops.extend((0..k).map(|_| Op::Con(1)));
        ops.extend(vec![Op::Rand(vec![Op::Chal, Op::Con(1)]), Op::Rand(vec![Op::Con(0)]), Op::Rand(vec![Op::Chal])]);
        big.push((format!("{} constraints before", k), ops));
        let many: Vec<Op> = (0..k).map(|_| Op::Con(1)).collect();
        big.push((format!("{} constraints in the first callback", k), vec![Op::Commit, Op::Pair, Op::Rand(many), Op::Rand(vec![Op::Chal]), Op::Rand(vec![Op::Con(1)])]));
    }
    ctx.par("many callbacks", &big, |(what, ops)| {
        let g = gens(npad(ops));
        let m = match real_prove(ops, 0, &g) {
            Ok(Ok(m)) => m,
            Ok(Err((e, _))) => return ctx.viol("callbacks", format!("prover error {:?} on {}", e, what)),
            Err(e) => return ctx.viol("callbacks", format!("prover panic {} on {}", e, what)),
        };
        ctx.st(1);
        ctx.tr(m.st.borrow().steps * 2);
        ctx.tv(2);
        ctx.check(top_order_ok(ops, &m.st), "order", || format!("prover order on {}", what));
        match real_verify(ops, 0, &g, &m.proof, &m.comms, LABEL) {
            Ok((r, sv)) => {
                ctx.check(r.is_ok(), "callbacks", || format!("rejected {:?} on {}", r, what));
                ctx.check(top_order_ok(ops, &sv), "order", || format!("verifier order on {}", what));
                let (a, b) = (m.st.borrow(), sv.borrow());
                ctx.check(a.order == b.order && a.n1 == b.n1, "order", || format!("prover and verifier differ on {}", what));
                ctx.check(a.chals.len() == b.chals.len() && a.chals.iter().zip(&b.chals).all(|(x, y)| eq(x, y)), "challenges", || format!("differ between prover and verifier on {}", what));
                let d: std::collections::HashSet<Vec<u8>> = a.chals.iter().map(key).collect();
                ctx.check(d.len() == a.chals.len(), "challenges", || format!("repeated challenge on {}", what));
                for x in a.problems.iter().chain(b.problems.iter()) {
                    ctx.viol("callbacks", format!("{} on {}", x, what));
                }
            }
            Err(e) => ctx.viol("callbacks", format!("verifier panic {} on {}", e, what)),
        }
    });
    // errors: at every position of every callback, with every error value
    let mut items = vec![];
    for ops in seqs(&alpha, 2).into_iter().filter(|o| o.iter().any(|x| matches!(x, Op::Rand(_)))) {
        for e in 0..6u8 {
            for f in inserts(&ops, &Op::Fail(e)) {
                // only failures inside a callback
                if !f.iter().any(|o| matches!(o, Op::Fail(_))) {
                    items.push((ops.clone(), f, e));
                }
            }
        }
    }
    ctx.par("callback errors", &items, |(ops, f, e)| {
        let g = gens(npad(ops));
        ctx.st(1);
        ctx.tr(2);
        ctx.tv(2);
        let want = fail_err(*e);
        let ran_after = |st: &St| {
            // no top-level callback after the failing one
            let at = f.iter().filter(|o| matches!(o, Op::Rand(_))).position(|o| if let Op::Rand(b) = o { has_fail(b) } else { false }).unwrap() + 1;
            let n = f.iter().filter(|o| matches!(o, Op::Rand(_))).count();
            st.borrow().order.iter().any(|i| *i > at && *i <= n)
        };
        match real_prove(f, 0, &g) {
            Ok(Err((x, st))) => {
                ctx.check(x == want, "callback error", || format!("prover returned {:?} instead of {:?} on {}", x, want, sh(f)));
                ctx.check(!ran_after(&st), "callback error", || format!("prover ran callbacks after the failing one on {}", sh(f)));
            }
            Ok(Ok(_)) => ctx.viol("callback error", format!("prover swallowed {:?} on {}", want, sh(f))),
            Err(p) => ctx.viol("callback error", format!("prover panic {} on {}", p, sh(f))),
        }
        let m = match real_prove(ops, 0, &g) {
            Ok(Ok(m)) => m,
            _ => return ctx.viol("callbacks", format!("prover failed on {}", sh(ops))),
        };
        match real_verify(f, 0, &g, &m.proof, &m.comms, LABEL) {
            Ok((Err(x), st)) => {
                ctx.check(x == want, "callback error", || format!("verifier returned {:?} instead of {:?} on {}", x, want, sh(f)));
                ctx.check(!ran_after(&st), "callback error", || format!("verifier ran callbacks after the failing one on {}", sh(f)));
            }
            Ok((Ok(()), _)) => ctx.viol("callback error", format!("verifier swallowed {:?} on {}", want, sh(f))),
            Err(p) => ctx.viol("callback error", format!("verifier panic {} on {}", p, sh(f))),
        }
        let _: Option<R1CSError> = None;
    });
}
