//! C23 bad input to the gadgets' entry points, C24 gadget commitments, and the gadget part of C07.
use crate::circ::*;
use crate::f::*;
use crate::g1::*;
use crate::g2::*;
use crate::g3::*;
use crate::g4::*;
use crate::gadgets::*;
use crate::rt::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::{Prover, Verifier};
use merlin::Transcript;
use std::collections::BTreeSet;
use std::sync::Arc;

/// True instances of every gadget, in several sizes.
pub fn truths(ctx: &Ctx) -> Vec<Arc<Stmt>> {
    let a = |s: Stmt| Arc::new(s);
    let mut v: Vec<Arc<Stmt>> = instances().into_iter().filter(|x| !x.0.starts_with("half") && x.0 != "square").map(|x| x.1).collect();
    v.push(a(bound(7, 0, 7, 3)));
    v.push(a(bound(0, 0, 0, 1)));
    v.push(a(setm(fe(3), fes(&[3]))));
    v.push(a(alt(3, vec![3])));
    v.push(a(alt(9, vec![1, 9, 4, 6])));
    v.push(a(nonmem(fe(3), fes(&[4]))));
    v.push(a(bound((1 << 60) + 5, 1 << 60, (1 << 60) + 9, 4)));
    v.push(a(bound(u64::MAX, u64::MAX - 3, u64::MAX, 2)));
    v.push(a(alt(u64::MAX, vec![1, u64::MAX])));
    v.push(a(alt(1 << 59, vec![1 << 59, 1 << 63])));
    v.push(a(nonmem(fe(0), fes(&[4, 5, 6]))));
    v.push(a(nonzero(Fe::minus_one())));
    v.push(a(hamming(fes(&[1]), fes(&[2]), 1)));
    v.push(a(hamming(fes(&[1, 1, 1, 1]), fes(&[1, 1, 1, 1]), 0)));
    let p = pp(9, 1, 0, 0);
    let inp: Vec<Fe> = (0..8).map(|i| drv("in8", i)).collect();
    let h = hash_ref(&inp, &p, &SboxType::Quint).0;
    v.push(a(poseidon(inp, h, p, SboxType::Quint, 8)));
    for d in ctx.b(vec![2usize], vec![2, 3]) {
        for n in [4usize, 8] {
            let p = params(n, 1, 0, 0);
            let sib = sibs(n, d, "sib");
            let rt = RefTree { n, depth: d, p: &p, empty: vec![], sb: SboxType::Quint };
            let ix: Ix = (0..d).map(|l| (l + 1) as u8).collect();
            let root = rt.fold(&ix, &fe(77), &sib);
            v.push(a(incl(n, &fe(77), &ix_fe(&ix, n), &sib, &root, d, &p, SboxType::Quint)));
        }
    }
    v
}
fn res<T>(r: &Result<Result<T, bulletproofs_amcl::errors::R1CSError>, String>) -> String {
    match r {
        Ok(Ok(_)) => "Ok".into(),
        Ok(Err(e)) => format!("{:?}", e),
        Err(p) => format!("panic: {}", p),
    }
}
fn run_vf(s: &Stmt, c: Vec<G1>, g: &Gens) -> Result<Res, String> {
    guard(|| {
        let mut t = Transcript::new(GL);
        let mut v = Verifier::new(&mut t);
        (s.vf)(&mut v, c, g)
    })
}
fn run_pv(s: &Stmt, r: &Rnd, g: &Gens) -> Result<Result<Vec<G1>, bulletproofs_amcl::errors::R1CSError>, String> {
    guard(|| {
        let mut t = Transcript::new(GL);
        let mut p = Prover::new(&g.g, &g.h, &mut t);
        (s.pv)(&mut p, r)
    })
}

pub fn c23(ctx: &Ctx) {
    let all = truths(ctx);
    let nrand = |s: &Stmt| -> usize { if s.name.starts_with("merkle") { 2 } else { s.inputs.len() } };
    // commitment counts
    ctx.par("commitment counts", &all, |s| {
        let g = gens(need(s, 512));
        let r = given(nrand(s));
        let (p, c) = match guard(|| (s.gw)(&g, &r, GL)) {
            Ok(Ok(x)) => x,
            e => {
                ctx.viol("baseline", format!("{}: honest proof: {}", s.name, res(&e)));
                return;
            }
        };
        let extra = [c[c.len() - 1].clone(), c[0].clone(), gens(1).h, ident()];
        let mut lists: Vec<Vec<G1>> = vec![];
        for k in 0..c.len() {
            lists.push(c[..k].to_vec()); // the first k
            lists.push(c[c.len() - k..].to_vec()); // the last k
            let mut x = c.clone();
            x.remove(k); // all but the k-th
            lists.push(x);
        }
        for e in &extra {
            for n in 1..=ctx.b(2usize, 5) {
                lists.push([c.clone(), vec![e.clone(); n]].concat());
            }
            lists.push([vec![e.clone()], c.clone()].concat());
        }
        lists.push([c.clone(), c.clone()].concat());
        for l in lists {
            if l.len() == c.len() {
                continue;
            }
            let n = l.len();
            ctx.st(1);
            ctx.tr(2);
            ctx.tv(1);
            let v = guard(|| (s.vw)(&g, p.clone(), l.clone(), GL));
            ctx.check(matches!(v, Ok(Err(_))), "commitment-count", || format!("{}: verification with {} commitments instead of {}: {}", s.name, n, c.len(), res(&v)));
            let v = run_vf(s, l, &g);
            ctx.check(matches!(v, Ok(Err(_))), "commitment-count", || format!("{}: building the verifier's circuit with {} commitments instead of {}: {}", s.name, n, c.len(), res(&v)));
        }
    });
    // randomness
    ctx.par("randomness", &all, |s| {
        if !s.rnd {
            return;
        }
        let g = gens(need(s, 512));
        let k = nrand(s);
        let mut rs = vec![(Rnd::Neither, "neither randomness nor a random source".to_string())];
        if s.name.starts_with("mimc") || s.name.starts_with("poseidon") || s.name.starts_with("merkle") {
            for n in 0..=k + 3 {
                if n != k {
                    rs.push((given(n), format!("{} random values instead of {}", n, k)));
                }
            }
        }
        for (r, what) in rs {
            ctx.st(1);
            ctx.tr(2);
            let v = run_pv(s, &r, &g);
            ctx.check(matches!(v, Ok(Err(_))), "randomness", || format!("{}: proving with {}: {}", s.name, what, res(&v)));
            let v = guard(|| (s.gw)(&g, &r, GL));
            ctx.check(matches!(v, Ok(Err(_))), "randomness", || format!("{}: proof generation with {}: {}", s.name, what, res(&v)));
        }
    });
    // generators
    ctx.par("generators", &all, |s| {
        let n = need(s, 0);
        if n == 0 {
            return;
        }
        let g = gens(n);
        let r = given(nrand(s));
        let (p, c) = match guard(|| (s.gw)(&g, &r, GL)) {
            Ok(Ok(x)) => x,
            _ => return,
        };
        let lens: Vec<usize> = (0..n.min(6)).chain([n / 2, n - 1]).filter(|x| *x < n).collect::<BTreeSet<_>>().into_iter().collect();
        for a in lens.iter().cloned().chain([n]) {
            for b in lens.iter().cloned().chain([n]) {
                if a == n && b == n {
                    continue;
                }
                if a != n && b != n && a != b {
                    continue;
                }
                let g2 = Gens { g: g.g.clone(), h: g.h.clone(), G: gens(a).G, H: gens(b).H };
                ctx.st(1);
                ctx.tr(2);
                ctx.tv(1);
                let v = guard(|| (s.gw)(&g2, &r, GL));
                ctx.check(matches!(v, Ok(Err(_))), "generators", || format!("{}: proving with {} and {} generators, {} needed: {}", s.name, a, b, n, res(&v)));
                let v = guard(|| (s.vw)(&g2, p.clone(), c.clone(), GL));
                ctx.check(matches!(v, Ok(Err(_))), "generators", || format!("{}: verifying with {} and {} generators, {} needed: {}", s.name, a, b, n, res(&v)));
            }
        }
    });
    // wrongly sized inputs
    let mut items: Vec<(String, Arc<Stmt>)> = vec![];
    let mut put = |w: String, s: Stmt| items.push((w, Arc::new(s)));
    for k in 0..=4usize {
        let inp: Vec<Fe> = (0..k as u64).map(|i| drv("l", i)).collect();
        if k != 2 {
            put(format!("mimc with {} inputs", k), mimc(inp, fe(1), vec![fe(3), fe(4)], 2));
        }
    }
    for have in 0..=3usize {
        for rounds in 0..=5usize {
            if have < rounds {
                let c: Vec<Fe> = (0..have as u64).map(|i| drv("c", i)).collect();
                put(format!("mimc with {} constants for {} rounds", have, rounds), mimc(vec![fe(1), fe(2)], fe(1), c, rounds));
            }
        }
    }
    for (w, k) in [(3usize, 2usize), (5, 4), (9, 8)] {
        for n in 0..=k + 2 {
            if n != k {
                let inp: Vec<Fe> = (0..n as u64).map(|i| drv("in", i)).collect();
                put(format!("poseidon{} with {} inputs", k, n), poseidon(inp, fe(1), pp(w, 1, 0, 0), SboxType::Quint, k));
            }
        }
    }
    for n in [4usize, 8] {
        for d in 1..=ctx.b(2usize, 4) {
            for l in 0..=d + 2 {
                if l != d {
                    put(format!("merkle{} of depth {} with {} levels", n, d, l), merkle(n, fe(1), fe(0), sibs(n, l, "sib"), fe(1), d, params(n, 1, 0, 0), SboxType::Quint));
                }
            }
        }
    }
    for a in 0..=3usize {
        for b in 0..=3usize {
            if a != b {
                put(format!("hamming distance of {} and {} values", a, b), hamming((0..a as u64).map(fe).collect(), (0..b as u64).map(fe).collect(), 0));
            }
        }
    }
    for (v, lo, hi, bits) in [(5u64, 6u64, 9u64, 3usize), (10, 6, 9, 3), (7, 9, 6, 3), (0, 1, 0, 1), (7, 6, 9, 254), (7, 6, 9, 255), (7, 6, 9, 300), (7, 6, 9, usize::MAX)] {
        put(format!("bound check of {} in [{}, {}] with {} bits", v, lo, hi, bits), bound(v, lo, hi, bits));
    }
    ctx.par("wrongly sized inputs", &items, |(w, s)| {
        let g = gens(64);
        // every number of random values beside the wrong number of inputs
        let mut rs = vec![Rnd::Rng(3), given(nrand(s))];
        if w.starts_with("mimc") || w.starts_with("poseidon") {
            rs.extend((0..=11).map(given));
        }
        for r in rs {
            ctx.st(1);
            ctx.tr(2);
            let v = run_pv(s, &r, &g);
            ctx.check(matches!(v, Ok(Err(_))), "inputs", || format!("{}: proving: {}", w, res(&v)));
            let v = guard(|| (s.gw)(&g, &r, GL));
            ctx.check(matches!(v, Ok(Err(_))), "inputs", || format!("{}: proof generation: {}", w, res(&v)));
        }
        // the verifier side: an error, or a circuit that no proof satisfies; never a panic
        let v = run_vf(s, stand_ins(s.ncomm), &g);
        ctx.check(v.is_ok(), "inputs", || format!("{}: building the verifier's circuit: {}", w, res(&v)));
        let donor = nonzero(fe(4));
        if let Ok(Ok((p, _))) = guard(|| (donor.gw)(&g, &given(1), GL)) {
            let v = guard(|| (s.vw)(&g, p, stand_ins(s.ncomm), GL));
            ctx.check(matches!(v, Ok(Err(_))), "inputs", || format!("{}: verification: {}", w, res(&v)));
        }
    });
    // empty sets and values that make the honest prover's statement false: an error or a rejected proof
    let mut items: Vec<Arc<Stmt>> = vec![];
    for v in [0u64, 1, 7] {
        items.push(Arc::new(setm(fe(v), vec![])));
        items.push(Arc::new(alt(v, vec![])));
    }
    items.push(Arc::new(nonzero(fe(0))));
    items.push(Arc::new(nonmem(fe(4), fes(&[4]))));
    items.push(Arc::new(setm(fe(4), fes(&[5, 6]))));
    items.push(Arc::new(alt(4, vec![5, 6])));
    for k in [1u64, 2, 1 << 40] {
        items.push(Arc::new(hamming(vec![], vec![], k)));
        items.push(Arc::new(hamming(fes(&[1]), fes(&[1]), k)));
    }
    for s in instances() {
        if let Some(f) = s.2 {
            items.push(f);
        }
    }
    ctx.par("false statements", &items, |s| {
        honest_false(ctx, "false", s, 512, &Rnd::Rng(5));
        ctx.tr(1);
        if s.rnd {
            honest_false(ctx, "false", s, 512, &given(nrand(s)));
        }
    });
    // non-membership in the empty set is true
    ctx.seq("empty set non-membership", || {
        honest_true(ctx, "empty", &nonmem(fe(4), vec![]), 1, &Rnd::Rng(5));
        honest_true(ctx, "empty", &hamming(vec![], vec![], 0), 1, &Rnd::Rng(5));
    });
    // the randomizer's own arguments
    let orig: Map = all_ix(4, 2).into_iter().enumerate().map(|(k, i)| (i, drv("leaf", k as u64))).collect();
    let d = vec![vec![1u8, 2], vec![3, 0]];
    let mut new = orig.clone();
    for i in &d {
        new.insert(i.clone(), fe(5));
    }
    let base = Rz::honest(leaked(1, 0, 0), 2, orig, new, d);
    ctx.seq("randomizer arguments", || {
        let g = gens(512);
        let s = base.stmt();
        ctx.check(matches!(guard(|| (s.gw)(&g, &Rnd::Neither, GL)), Ok(Ok(_))), "baseline", || "randomizer baseline".into());
        let mut bad: Vec<(String, Rz)> = vec![];
        for dep in [0usize, 1, 3] {
            // the stated depth differs from the trees'
            let mut b = base.clone();
            b.stated = Some(dep);
            bad.push((format!("stated depth {}", dep), b));
        }
        for k in 0..2 {
            let mut b = base.clone();
            b.vals[k] = fe(99);
            bad.push((format!("wrong original value {}", k), b));
        }
        for n in [0usize, 1, 3] {
            let mut b = base.clone();
            b.vals.resize(n, fe(5));
            bad.push((format!("{} original values for 2 indices", n), b));
        }
        for (w, b) in bad {
            let s = b.entry_only();
            ctx.st(1);
            ctx.tr(1);
            let v = guard(|| (s.gw)(&g, &Rnd::Neither, GL));
            ctx.check(matches!(v, Ok(Err(_))), "randomizer-arguments", || format!("randomizer with {}: {}", w, res(&v)));
            if b.stated.is_some() {
                if let Ok(Ok((p, c))) = guard(|| (base.stmt().gw)(&g, &Rnd::Neither, GL)) {
                    let v = guard(|| (s.vw)(&g, p, c, GL));
                    ctx.check(matches!(v, Ok(Err(_))), "randomizer-arguments", || format!("verifying the randomizer with {}: {}", w, res(&v)));
                }
            }
        }
        // nodes missing from either store
        for which in 0..2 {
            for k in 0..8usize {
                let mut b = base.clone();
                b.missing = Some((which, k));
                let s = b.entry_only();
                ctx.st(1);
                ctx.tr(2);
                let v = guard(|| (s.gw)(&g, &Rnd::Neither, GL));
                ctx.check(v.is_ok(), "randomizer-arguments", || format!("randomizer with node {} missing from store {}: {}", k, which, res(&v)));
                if let Ok(Ok((p, c))) = guard(|| (base.stmt().gw)(&g, &Rnd::Neither, GL)) {
                    let v = guard(|| (s.vw)(&g, p, c, GL));
                    ctx.check(v.is_ok(), "randomizer-arguments", || format!("verifying the randomizer with node {} missing from store {}: {}", k, which, res(&v)));
                }
            }
        }
    });
}

pub fn c24(ctx: &Ctx) {
    let all = truths(ctx);
    let g0 = gens(1);
    let rand_tables: Vec<(&'static str, Box<dyn Fn(usize) -> Vec<Fe> + Sync>)> = vec![
        ("distinct", Box::new(|k| (0..k as u64).map(|i| drv("rand", i)).collect())),
        ("zero", Box::new(|k| vec![Fe::zero(); k])),
        ("one", Box::new(|k| vec![Fe::one(); k])),
        ("minus one", Box::new(|k| vec![Fe::minus_one(); k])),
        ("small", Box::new(|k| (0..k as u64).map(|i| fe(i + 2)).collect())),
        ("negative", Box::new(|k| (0..k as u64).map(|i| fe(i + 2).negation()).collect())),
    ];
    // the caller's own inputs: position among the commitments and value
    let own = |s: &Stmt| -> Vec<(usize, Fe)> {
        if s.name.starts_with("merkle") {
            s.inputs[..2].to_vec()
        } else {
            s.inputs.clone()
        }
    };
    ctx.par("given randomness", &all, |s| {
        if !s.rnd {
            return;
        }
        let o = own(s);
        for (t, f) in &rand_tables {
            let r = f(o.len());
            // with the randomness alone, and with a random source beside it
            for (full, both) in [(false, true), (false, false), (true, true), (true, false)] {
                ctx.st(1);
                ctx.tr(o.len() as u64);
                let rn = if both { Rnd::Both(r.clone(), 9) } else { Rnd::Given(r.clone()) };
                let c = if full {
                    guard(|| (s.gw)(&gens(need(s, 512)), &rn, GL).map(|x| x.1))
                } else {
                    run_pv(s, &rn, &g0)
                };
                let c = match c {
                    Ok(Ok(c)) => c,
                    e => {
                        ctx.viol("commitment", format!("{} with {} randomness: {}", s.name, t, res(&e)));
                        continue;
                    }
                };
                ctx.check(c.len() == s.ncomm, "commitment-order", || format!("{}: {} commitments returned, the verifier takes {}", s.name, c.len(), s.ncomm));
                for (k, (i, x)) in o.iter().enumerate() {
                    let want = ped(&g0.g, &g0.h, x, &r[k]);
                    ctx.check(c.get(*i).map_or(false, |p| peq(p, &want)), "commitment", || {
                        format!("{}: commitment {} is not the Pedersen commitment to the input under the caller's randomness ({})", s.name, i, t)
                    });
                }
                if *t == "distinct" && !both {
                    break;
                }
            }
        }
    });
    // a supplied random source is what the input commitments are blinded with
    ctx.par("given random source", &all, |s| {
        if !s.rnd {
            return;
        }
        let o = own(s);
        let mut seen: Vec<Vec<Vec<u8>>> = vec![];
        for seed in [1u64, 2, 1, 99] {
            let mut rng = Cnt(seed);
            let draws: Vec<Fe> = (0..64).map(|_| Fe::random_using_rng(&mut rng)).collect();
            ctx.st(1);
            ctx.tr(o.len() as u64);
            match run_pv(s, &Rnd::Rng(seed), &g0) {
                Ok(Ok(c)) if c.len() == s.ncomm => {
                    let mut used = BTreeSet::new();
                    for (i, x) in &o {
                        let hit = draws.iter().position(|r| peq(&c[*i], &ped(&g0.g, &g0.h, x, r)));
                        ctx.check(hit.map_or(false, |h| used.insert(h)), "source", || {
                            format!("{}: commitment {} does not open to the input under a draw of its own from the supplied source", s.name, i)
                        });
                    }
                    seen.push(o.iter().map(|(i, _)| pkey(&c[*i])).collect());
                }
                e => ctx.viol("source", format!("{}: {}", s.name, res(&e))),
            }
        }
        if seen.len() == 4 {
            ctx.check(seen[0] == seen[2], "source", || format!("{}: input commitments depend on more than the source", s.name));
            ctx.check(seen[0] != seen[1] && seen[0] != seen[3], "source", || format!("{}: input commitments do not depend on the source", s.name));
        }
    });
    // every returned commitment opens to the wire the circuit uses for it
    ctx.par("all commitments open to the wires", &all, |s| {
        if !HOOKS {
            return;
        }
        let c = match circuit(s) {
            Ok(Ok(c)) => c,
            _ => return,
        };
        let pos = comm_pos(&c, s.ncomm);
        let r = if s.rnd { given(own(s).len()) } else { Rnd::Neither };
        match guard(|| extract_prover(&|p: &mut Prover| (s.pv)(p, &r))) {
            Ok(Ok((pc, a, bl, comms))) => {
                ctx.st(1);
                ctx.tr(comms.len() as u64);
                ctx.check(pc.m == c.m && pc.n == c.n, "commitment-order", || format!("{}: prover and verifier build different circuits", s.name));
                for (i, p) in comms.iter().enumerate() {
                    let v = pos.get(i).cloned().flatten();
                    let ok = v.map_or(false, |v| v < pc.m && peq(p, &ped(&g0.g, &g0.h, &a[v], &bl[v])));
                    ctx.check(ok, "commitment-order", || format!("{}: the {}-th returned commitment is not the one its verifier takes there", s.name, i));
                }
                for (i, x) in &s.inputs {
                    let v = pos.get(*i).cloned().flatten();
                    ctx.check(v.map_or(false, |v| v < pc.m && eq(&a[v], x)), "commitment", || format!("{}: commitment {} is not to the input value", s.name, i));
                }
                ctx.check(c.holds(&a) || !s.inputs.is_empty() && a.len() != c.nv(), "commitment-order", || {
                    format!("{}: the honest prover's values do not satisfy the verifier's circuit", s.name)
                });
            }
            e => ctx.viol("commitment", format!("{}: {}", s.name, res(&e))),
        }
    });
    // a proof verifies only with its own commitments, in order
    ctx.par("changed commitments", &all, |s| {
        let g = gens(need(s, 512));
        let r = if s.rnd { given(own(s).len()) } else { Rnd::Neither };
        let (p, c) = match guard(|| (s.gw)(&g, &r, GL)) {
            Ok(Ok(x)) => x,
            e => {
                ctx.viol("commitment", format!("{}: {}", s.name, res(&e)));
                return;
            }
        };
        ctx.tv(1);
        let v = guard(|| (s.vw)(&g, p.clone(), c.clone(), GL).is_ok());
        ctx.check(v == Ok(true), "commitment", || format!("{}: honest proof rejected", s.name));
        let mut lists: Vec<(String, Vec<G1>)> = vec![];
        let lim = ctx.b(6usize, 40);
        for i in 0..c.len() {
            if i >= lim && i + 2 < c.len() {
                continue;
            }
            for (w, q) in [("plus g", &c[i] + &g.g), ("plus h", &c[i] + &g.h), ("negated", c[i].negation()), ("replaced by g", g.g.clone())] {
                let mut l = c.clone();
                l[i] = q;
                lists.push((format!("commitment {} {}", i, w), l));
            }
            for j in 0..i {
                if j >= lim && !ctx.thorough {
                    continue;
                }
                let mut l = c.clone();
                l.swap(i, j);
                lists.push((format!("commitments {} and {} exchanged", i, j), l));
                let mut l = c.clone();
                l[i] = c[j].clone();
                lists.push((format!("commitment {} replaced by commitment {}", i, j), l));
            }
        }
        for (w, l) in lists {
            if l.iter().zip(&c).all(|(x, y)| peq(x, y)) {
                continue;
            }
            ctx.st(1);
            ctx.tr(1);
            ctx.tv(1);
            let v = guard(|| (s.vw)(&g, p.clone(), l, GL).is_ok());
            ctx.check(v == Ok(false), "changed", || format!("{}: proof with {}: {:?}", s.name, w, v));
        }
    });
    // the same input committed elsewhere: one commitment shared by two gadgets' proofs
    ctx.seq("linking", || {
        let r = drv("link", 1);
        let x = fe(7);
        let parts: Vec<Stmt> = vec![bound(7, 3, 9, 3), setm(x.clone(), fes(&[3, 7])), alt(7, vec![3, 7]), nonmem(x.clone(), fes(&[3, 9])), nonzero(x.clone())];
        let want = ped(&g0.g, &g0.h, &x, &r);
        for s in &parts {
            let g = gens(need(s, 64));
            let i = s.inputs[0].0;
            match guard(|| (s.gw)(&g, &Rnd::Given(vec![r.clone()]), GL)) {
                Ok(Ok((p, mut c))) => {
                    ctx.check(peq(&c[i], &want), "link", || format!("{}: input commitment differs from the one made elsewhere", s.name));
                    c[i] = want.clone();
                    ctx.tv(1);
                    let v = guard(|| (s.vw)(&g, p, c, GL).is_ok());
                    ctx.check(v == Ok(true), "link", || format!("{}: proof not accepted with the commitment made elsewhere: {:?}", s.name, v));
                }
                e => ctx.viol("link", format!("{}: {}", s.name, res(&e))),
            }
        }
    });
}

/// C07, gadgets: auxiliary commitments are blinded, each with randomness of its own.
pub fn hiding(ctx: &Ctx) {
    let mut all = truths(ctx);
    // sizes beyond any small threshold
    for n in ctx.b(vec![10u64, 20], vec![10, 17, 33, 65]) {
        let set: Vec<u64> = (0..n).map(|i| 3 * i + 1).collect();
        all.push(Arc::new(setm(fe(4), fes(&set))));
        all.push(Arc::new(alt(4, set.clone())));
        all.push(Arc::new(nonmem(fe(5), fes(&set))));
        all.push(Arc::new(hamming(fes(&set), fes(&set.iter().map(|x| x + (x % 2)).collect::<Vec<_>>()), set.iter().filter(|x| *x % 2 == 1).count() as u64)));
    }
    all.push(Arc::new(bound(1 << 33, 0, 1 << 40, 41)));
    ctx.par("gadget commitments", &all, |s| {
        let g0 = gens(1);
        let own: Vec<usize> = if !s.rnd {
            vec![]
        } else if s.name.starts_with("merkle") {
            vec![0, 1]
        } else {
            s.inputs.iter().map(|x| x.0).collect()
        };
        let r = if s.rnd { given(own.len()) } else { Rnd::Neither };
        let mut blinds: Vec<Vec<u8>> = vec![];
        for run in 0..ctx.b(3, 6) {
            if HOOKS {
                let e = guard(|| extract_prover(&|p: &mut Prover| (s.pv)(p, &r)));
                let (_, _, bl, comms) = match e {
                    Ok(Ok(x)) => x,
                    e => {
                        ctx.viol("aux", format!("{}: {}", s.name, res(&e)));
                        return;
                    }
                };
                let c = match circuit(s) {
                    Ok(Ok(c)) => c,
                    _ => return,
                };
                let pos = comm_pos(&c, s.ncomm);
                ctx.st(1);
                ctx.tr(comms.len() as u64);
                for i in 0..comms.len() {
                    if own.contains(&i) {
                        continue;
                    }
                    if let Some(Some(v)) = pos.get(i) {
                        if *v < bl.len() {
                            ctx.check(!bl[*v].is_zero(), "aux", || format!("{}: commitment {} is not blinded", s.name, i));
                            blinds.push(key(&bl[*v]));
                        }
                    }
                }
            }
            // the full entry point: the blinding part of every commitment to a known value
            let g = gens(need(s, 512));
            if let Ok(Ok((_, c))) = guard(|| (s.gw)(&g, &r, GL)) {
                ctx.tv(1);
                for (i, x) in &s.inputs {
                    if own.contains(i) || *i >= c.len() {
                        continue;
                    }
                    let b = &c[*i] - &(&g0.g * x);
                    ctx.check(!b.is_identity(), "aux", || format!("{}: commitment {} is not blinded", s.name, i));
                    blinds.push(pkey(&b));
                }
                let _ = run;
            }
        }
        let n = blinds.len();
        let d: BTreeSet<Vec<u8>> = blinds.into_iter().collect();
        ctx.check(d.len() == n, "aux", || format!("{}: {} auxiliary blindings, only {} different", s.name, n, d.len()));
    });
}
