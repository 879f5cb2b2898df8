//! C11 bounds, C12 membership, C13 non-membership and non-zero, C14 Hamming distance, C15 MiMC.
use crate::circ::*;
use crate::f::*;
use crate::gadgets::*;
use crate::rt::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc as mimc_native;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;

pub fn two(n: usize) -> Fe {
    let mut x = Fe::one();
    for _ in 0..n {
        x = &x + &x;
    }
    x
}
/// the bound statement with an arbitrary field element as the committed number
pub fn bound_at(v: &Fe, lo: u64, hi: u64, bits: usize) -> Stmt {
    let mut s = bound(lo, lo, hi, bits);
    s.inputs = vec![(0, v.clone())];
    s.name = format!("bound(v={} in [{},{}] bits={})", show(v), lo, hi, bits);
    s
}

pub fn c11(ctx: &Ctx) {
    // every (value, lower, upper, bits) up to small bounds
    let top: u64 = ctx.b(10, 18);
    let mut items = vec![];
    for bits in 1..=ctx.b(4usize, 5) {
        for lo in 0..top {
            for hi in lo..top {
                items.push((bits, lo, hi));
            }
        }
    }
    ctx.par("circuit, all small bounds", &items, |&(bits, lo, hi)| {
        for v in -3i64..=(top as i64 + 3) {
            let val = fi(v);
            let fits = |x: i64| x >= 0 && x < (1i64 << bits);
            let inside = v >= lo as i64 && v <= hi as i64;
            let s = bound_at(&val, lo, hi, bits);
            if !inside {
                unprovable(ctx, "bounds-small", &s, &[]);
            } else if fits(v - lo as i64) && fits(hi as i64 - v) {
                provable(ctx, "bounds-small", &s, &[], v == lo as i64 && (lo + hi) % 5 == 0);
            }
        }
        // foreign numbers
        for v in [drv("v", 1), two(bits), two(200), Fe::minus_one() * fe(lo), two(254)] {
            if (lo..=hi).any(|x| eq(&fe(x), &v)) {
                continue;
            }
            unprovable(ctx, "bounds-small", &bound_at(&v, lo, hi, bits), &[]);
        }
    });
    // boundary values at every bit size
    let mut items = vec![];
    for bits in 1..=64usize {
        let m = u64::MAX >> (64 - bits);
        for (lo, hi) in [(0, m), (m / 2, m), (1, m), (m, m), (0, 0), (m / 3, m / 3 + m / 2)] {
            if lo <= hi {
                items.push((bits, lo, hi));
            }
        }
    }
    ctx.par("circuit, boundaries of every size", &items, |&(bits, lo, hi)| {
        let (l, h) = (fe(lo), fe(hi));
        let one = Fe::one();
        for v in [l.clone(), h.clone()] {
            provable(ctx, "bounds-edge", &bound_at(&v, lo, hi, bits), &[], false);
        }
        for v in [&l - &one, &h + &one, two(bits) + &l, &h - two(bits), Fe::minus_one(), l.negation() - &one, two(64), two(128), two(254), drv("v", 2)] {
            unprovable(ctx, "bounds-edge", &bound_at(&v, lo, hi, bits), &[]);
        }
    });
    // bit sizes around and beyond the size of the field
    let items: Vec<usize> = ctx.b(vec![64, 100, 127, 200, 252, 253, 254, 255, 256, 300], (64..=270).chain([300, 383, 384, 400]).collect());
    ctx.par("circuit, large bit sizes", &items, |&bits| {
        for (lo, hi) in [(0u64, 10u64), (5, 5), (3, 1 << 50)] {
            for v in [fe(lo), fe(hi)] {
                if bits <= 64 {
                    provable(ctx, "bounds-size", &bound_at(&v, lo, hi, bits), &[], false);
                }
            }
            let one = Fe::one();
            for v in [fe(lo) - &one, fe(hi) + &one, Fe::minus_one(), two(bits.min(600)), two(253), drv("v", 4)] {
                if v.is_zero() || (lo..=hi.min(lo + 20)).any(|x| eq(&fe(x), &v)) {
                    continue;
                }
                unprovable(ctx, "bounds-size", &bound_at(&v, lo, hi, bits), &[]);
            }
        }
    });
    // the full entry points
    let mut items = vec![];
    for (lo, hi, bits) in [(0u64, 0u64, 1usize), (5, 5, 1), (3, 9, 3), (0, 15, 4), (10, 100, 7), (1, (1 << 32) - 1, 32), (0, (1 << 50) - 1, 50), (1 << 55, (1 << 55) + 3, 2), (0, (1 << 61) - 1, 61), (1 << 60, (1 << 62) + 3, 63), (0, i64::MAX as u64, 63), (1 << 62, (1 << 62) + 3, 2), (0, 1 << 58, 60), (0, (1 << 59) - 1, 59), (0, 1 << 63, 64), (1 << 63, u64::MAX, 63), (0, u64::MAX, 64), (u64::MAX - 2, u64::MAX, 2), (i64::MAX as u64, 1 << 63, 1)] {
        for v in [lo.saturating_sub(1), lo, lo.wrapping_add(1), lo + (hi - lo) / 2, hi, hi.wrapping_add(1), hi.wrapping_add(1000), 0, (1 << 55) + 2, (1 << 58) - 1, (1 << 58) + 5, (1 << 59) + (1 << 58), 1 << 61, 1 << 63, u64::MAX] {
            items.push((v, lo, hi, bits));
        }
    }
    items.sort();
    items.dedup();
    ctx.par("entry points", &items, |&(v, lo, hi, bits)| {
        let s = bound(v, lo, hi, bits);
        let n = (2 * bits).next_power_of_two();
        if v >= lo && v <= hi {
            honest_true(ctx, "bounds-entry", &s, n, &Rnd::Rng(7));
            honest_true(ctx, "bounds-entry", &s, n, &given(1));
        } else {
            honest_false(ctx, "bounds-entry", &s, n, &Rnd::Rng(7));
        }
        // a proof for these bounds does not verify for others
        if v >= lo && v <= hi && bits <= 8 {
            let g = gens(n);
            if let Ok(Ok((p, c))) = guard(|| (s.gw)(&g, &given(1), GL)) {
                for (l2, h2) in [(lo.wrapping_add(1), hi), (lo, hi.wrapping_add(1)), (lo.wrapping_sub(1), hi), (lo, hi.wrapping_sub(1))] {
                    if l2 > h2 {
                        continue;
                    }
                    ctx.tv(1);
                    let o = bound(v, l2, h2, bits);
                    let r = guard(|| (o.vw)(&g, p.clone(), c.clone(), GL).is_ok());
                    ctx.check(r == Ok(false), "bounds-entry", || format!("proof for {} checked for [{},{}]: {:?}", s.name, l2, h2, r));
                }
            }
        }
    });
    // the range of the positive-number constraints alone, for numbers of every size
    let items: Vec<usize> = (1..=ctx.b(80usize, 253)).chain(ctx.b(vec![100, 127, 128, 129, 160, 192, 200, 224, 230, 250, 252, 253], vec![])).collect();
    ctx.par("positive number, every size", &items, |&n| {
        let one = Fe::one();
        let top = two(n);
        let pat = (0..n).step_by(3).fold(Fe::zero(), |s, i| s + two(i));
        for v in [Fe::zero(), &top - &one, two(n - 1), &two(n - 1) - &one, pat] {
            provable(ctx, "positive-number", &positive(&v, n), &[], n % 40 == 3);
        }
        for v in [top.clone(), &top + &one, &top + &top, Fe::minus_one(), top.negation(), two(n + 1) - &one] {
            if n < 253 || !(eq(&v, &(&top + &top)) || eq(&v, &(two(n + 1) - &one))) {
                unprovable(ctx, "positive-number", &positive(&v, n), &[]);
            }
        }
        if n <= 80 || ctx.thorough {
            honest_true(ctx, "positive-number", &positive(&(&top - &one - two(n / 2)), n), n.next_power_of_two(), &given(1));
        }
    });
    // inverted bounds are an error, whatever the value
    let items: Vec<(u64, u64, u64)> = vec![(5, 9, 3), (9, 9, 8), (0, 1, 0), (100, 50, 49)];
    ctx.par("inverted bounds", &items, |&(v, lo, hi)| {
        honest_false(ctx, "bounds-inverted", &bound(v, lo, hi, 8), 16, &Rnd::Rng(7));
        unprovable(ctx, "bounds-inverted", &bound_at(&fe(v), lo, hi, 8), &[]);
    });
}

/// the committed number is in [0, 2^n)
pub fn positive(v: &Fe, n: usize) -> Stmt {
    let x = v.clone();
    from_parts(
        format!("positive({}, {} bits)", show(v), n),
        1,
        vec![(0, v.clone())],
        move |p, r| {
            let (c, var) = p.commit(x.clone(), r.one().unwrap());
            positive_no_gadget(p, AllocatedQuantity { variable: var, assignment: Some(x.clone()) }, n)?;
            Ok(vec![c])
        },
        move |v, mut c, _| {
            let var = v.commit(c.remove(0));
            positive_no_gadget(v, AllocatedQuantity { variable: var, assignment: None }, n)
        },
    )
}

/// every list over `u` of length 1..=k
pub fn lists(u: &[u64], k: usize) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = vec![];
    let mut cur: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for c in &cur {
            for x in u {
                let mut d = c.clone();
                d.push(*x);
                nx.push(d);
            }
        }
        out.extend(nx.clone());
        cur = nx;
    }
    out
}
pub fn fes(v: &[u64]) -> Vec<Fe> {
    v.iter().map(|x| fe(*x)).collect()
}

pub fn menu_for(set: &[Fe], v: &Fe) -> Vec<Fe> {
    let mut m: Vec<Fe> = set.to_vec();
    m.push(v.clone());
    for x in set {
        m.push(x - v);
        if !eq(x, v) {
            m.push((x - v).inverse());
        }
    }
    m.truncate(12);
    m
}

/// Larger lists of several shapes: zero at a position, all elements equal, a repeated pair, descending, huge elements.
fn shaped_sets(thorough: bool) -> Vec<(String, Vec<u64>)> {
    let mut out = vec![];
    for n in if thorough { vec![5usize, 6, 8, 9, 12, 16, 17, 24, 33, 40] } else { vec![6, 9, 17, 33] } {
        let base: Vec<u64> = (0..n as u64).map(|i| 10 + 3 * i).collect();
        let step = if thorough || n < 10 { 1 } else { n / 5 };
        for i in (0..n).step_by(step).chain([n - 1]) {
            let mut z = base.clone();
            z[i] = 0;
            out.push((format!("zero at {} of {}", i, n), z));
            let mut z = base.clone();
            z[i] = u64::MAX - 4;
            out.push((format!("huge at {} of {}", i, n), z));
            let mut z = base.clone();
            z[i] = z[(i + 1) % n];
            out.push((format!("neighbours equal at {} of {}", i, n), z));
            let mut z = base.clone();
            z[i] = z[(i + n / 2) % n];
            z[(i + 1) % n] = z[i];
            out.push((format!("triple at {} of {}", i, n), z));
        }
        out.push((format!("all equal {}", n), vec![9; n]));
        out.push((format!("all zero {}", n), vec![0; n]));
        out.push((format!("two values {}", n), (0..n as u64).map(|i| 4 + i % 2).collect()));
        out.push((format!("descending {}", n), base.iter().rev().cloned().collect()));
        out.push((format!("consecutive from zero {}", n), (0..n as u64).collect()));
    }
    out
}

pub fn c12(ctx: &Ctx) {
    let u = [0u64, 1, 5];
    let sets = lists(&u, ctx.b(3, 5));
    let vals: Vec<Fe> = vec![fe(0), fe(1), fe(5), fe(7), Fe::minus_one(), drv("v", 3)];
    ctx.par("product gadget, all small sets", &sets, |set| {
        let fset = fes(set);
        for (k, v) in vals.iter().enumerate() {
            let s = setm(v.clone(), fset.clone());
            let m = menu_for(&fset, v);
            if fset.iter().any(|x| eq(x, v)) {
                provable(ctx, "set-product", &s, &m, k == 0);
            } else {
                unprovable(ctx, "set-product", &s, &m);
            }
        }
    });
    ctx.par("bitmap gadget, all small sets", &sets, |set| {
        let fset = fes(set);
        for (k, v) in vals.iter().enumerate() {
            let mut s = alt(set[0], set.clone());
            s.inputs = vec![(set.len(), v.clone())];
            s.name = format!("member_alt({} in {:?})", show(v), set);
            let m = menu_for(&fset, v);
            if fset.iter().any(|x| eq(x, v)) {
                provable(ctx, "set-bitmap", &s, &m, k == 0);
            } else {
                unprovable(ctx, "set-bitmap", &s, &m);
            }
        }
    });
    // sets of integers of every size: a large one is not the field element its bits would wrap to
    let bigs = [1u64, (1 << 57) + 9, 1 << 58, (1 << 62) + 3, 1 << 63, (1 << 63) + 7, u64::MAX];
    let items: Vec<Vec<u64>> = lists(&bigs, ctx.b(2, 3));
    ctx.par("bitmap gadget, large integers", &items, |set| {
        let fset = fes(set);
        let mut vs: Vec<Fe> = bigs.iter().map(|x| fe(*x)).collect();
        for x in set {
            // readings as a signed word, and without the bits above a limb
            vs.push(if *x >> 63 == 1 { fe(x.wrapping_neg()).negation() } else { fe(*x).negation() });
            vs.push(fe(x & ((1 << 58) - 1)));
        }
        for v in vs {
            let mut s = alt(set[0], set.clone());
            s.inputs = vec![(set.len(), v.clone())];
            s.name = format!("member_alt({} in {:?})", show(&v), set);
            if fset.iter().any(|x| eq(x, &v)) {
                provable(ctx, "set-bitmap-large", &s, &[], false);
            } else {
                unprovable(ctx, "set-bitmap-large", &s, &[]);
            }
        }
        for v in bigs {
            let s = alt(v, set.clone());
            if set.contains(&v) {
                honest_true(ctx, "set-bitmap-large", &s, need(&s, 16), &given(1));
            } else {
                honest_false(ctx, "set-bitmap-large", &s, need(&s, 16), &given(1));
            }
        }
    });
    // larger sets, every position; values in and out
    let sizes: Vec<usize> = ctx.b((4..=20).chain([31, 32, 33, 64, 65]).collect(), (4..=40).chain([63, 64, 65, 100, 128]).collect());
    ctx.par("larger sets", &sizes, |&n| {
        let set: Vec<u64> = (0..n as u64).map(|i| 10 + 3 * i).collect();
        let fset = fes(&set);
        for i in 0..n {
            provable(ctx, "set-product", &setm(fset[i].clone(), fset.clone()), &[], false);
            provable(ctx, "set-bitmap", &alt(set[i], set.clone()), &[], false);
            unprovable(ctx, "set-product", &setm(&fset[i] + Fe::one(), fset.clone()), &[]);
            unprovable(ctx, "set-bitmap", &alt(set[i] + 1, set.clone()), &[]);
        }
        for v in [fe(0), set.iter().fold(fe(0), |s, x| s + fe(*x)), fe(23), Fe::minus_one()] {
            if fset.iter().any(|x| eq(x, &v)) {
                continue;
            }
            unprovable(ctx, "set-product", &setm(v.clone(), fset.clone()), &[]);
            let mut s = alt(set[0], set.clone());
            s.inputs = vec![(n, v.clone())];
            s.name = format!("member_alt({} in {:?})", show(&v), set);
            unprovable(ctx, "set-bitmap", &s, &[]);
        }
    });
    let shaped = shaped_sets(ctx.thorough);
    ctx.par("larger sets of several shapes", &shaped, |(what, set)| {
        let n = set.len();
        let fset = fes(set);
        let mut vs: Vec<u64> = vec![set[0], set[n / 2], set[n - 1], set[1], 0, 1, 5, 9, 11, u64::MAX - 4, u64::MAX];
        vs.extend(set.iter().step_by(4));
        vs.sort();
        vs.dedup();
        for v in vs {
            let p = setm(fe(v), fset.clone());
            let mut b = alt(set[0], set.clone());
            b.inputs = vec![(n, fe(v))];
            b.name = format!("member_alt({} in {})", v, what);
            if set.contains(&v) {
                provable(ctx, "set-product", &p, &[], false);
                provable(ctx, "set-bitmap", &alt(v, set.clone()), &[], false);
            } else {
                unprovable(ctx, "set-product", &p, &[]);
                unprovable(ctx, "set-bitmap", &b, &[]);
            }
        }
    });
    // entry points
    let mut items: Vec<(Vec<u64>, u64)> = vec![];
    for set in lists(&[0, 1, 5], ctx.b(2, 3)) {
        for v in [0, 1, 5, 7] {
            items.push((set.clone(), v));
        }
    }
    for n in ctx.b(vec![4u64, 7], vec![4, 5, 7, 8, 9, 16]) {
        let set: Vec<u64> = (0..n).map(|i| (i * i * 7 + 3) % 1000).collect();
        for i in 0..n as usize {
            items.push((set.clone(), set[i]));
        }
        items.push((set.clone(), 999));
        items.push((set.clone(), 0));
    }
    ctx.par("entry points", &items, |(set, v)| {
        let member = set.contains(v);
        let fset = fes(set);
        for s in [setm(fe(*v), fset.clone()), alt(*v, set.clone())] {
            let n = need(&s, 64);
            for r in [Rnd::Rng(3), given(1)] {
                if member {
                    honest_true(ctx, "set-entry", &s, n, &r);
                } else {
                    honest_false(ctx, "set-entry", &s, n, &r);
                }
            }
        }
        // field elements larger than integers, for the product version
        let big: Vec<Fe> = set.iter().map(|x| drv("big", *x)).collect();
        let s = setm(drv("big", *v), big.clone());
        if member {
            honest_true(ctx, "set-entry", &s, 16, &given(1));
        } else {
            honest_false(ctx, "set-entry", &s, 16, &given(1));
        }
    });
}

pub fn c13(ctx: &Ctx) {
    let vals: Vec<Fe> = vec![fe(0), fe(1), fe(5), fe(7), Fe::minus_one(), drv("v", 3), two(64), two(254)];
    ctx.par("non-zero", &vals, |v| {
        let s = nonzero(v.clone());
        if v.is_zero() {
            unprovable(ctx, "non-zero", &s, &[]);
            honest_false(ctx, "non-zero", &s, 2, &given(1));
            honest_false(ctx, "non-zero", &s, 2, &Rnd::Rng(1));
        } else {
            provable(ctx, "non-zero", &s, &[], true);
            honest_true(ctx, "non-zero", &s, 2, &given(1));
            honest_true(ctx, "non-zero", &s, 2, &Rnd::Rng(1));
        }
    });
    let sets = lists(&[0u64, 1, 5], ctx.b(3, 5));
    ctx.par("all small sets", &sets, |set| {
        let fset = fes(set);
        for (k, v) in vals.iter().enumerate() {
            let s = nonmem(v.clone(), fset.clone());
            let m = menu_for(&fset, v);
            if fset.iter().any(|x| eq(x, v)) {
                unprovable(ctx, "non-member", &s, &m);
            } else {
                provable(ctx, "non-member", &s, &m, k == 3);
            }
        }
    });
    let sizes: Vec<usize> = ctx.b((1..=20).chain([31, 32, 33, 64, 65]).collect(), (1..=40).chain([63, 64, 65, 100, 128]).collect());
    ctx.par("larger sets, every position", &sizes, |&n| {
        let set: Vec<u64> = (0..n as u64).map(|i| 10 + 3 * i).collect();
        let fset = fes(&set);
        for i in 0..n {
            unprovable(ctx, "non-member", &nonmem(fset[i].clone(), fset.clone()), &[]);
            provable(ctx, "non-member", &nonmem(&fset[i] + Fe::one(), fset.clone()), &[], false);
        }
    });
    let shaped = shaped_sets(ctx.thorough);
    ctx.par("larger sets of several shapes", &shaped, |(_, set)| {
        let n = set.len();
        let fset = fes(set);
        let mut vs: Vec<u64> = vec![set[0], set[n / 2], set[n - 1], set[1], 0, 1, 5, 9, 11, u64::MAX - 4, u64::MAX];
        vs.extend(set.iter().step_by(4));
        vs.sort();
        vs.dedup();
        for v in vs {
            let s = nonmem(fe(v), fset.clone());
            if set.contains(&v) {
                unprovable(ctx, "non-member", &s, &[]);
            } else {
                provable(ctx, "non-member", &s, &[], false);
            }
        }
    });
    let mut items: Vec<(Vec<u64>, u64)> = vec![];
    for set in lists(&[0, 1, 5], ctx.b(2, 3)) {
        for v in [0, 1, 5, 7] {
            items.push((set.clone(), v));
        }
    }
    for n in ctx.b(vec![4u64, 7], vec![4, 5, 7, 8, 9, 16]) {
        let set: Vec<u64> = (0..n).map(|i| (i * i * 7 + 3) % 1000).collect();
        for i in 0..n as usize {
            items.push((set.clone(), set[i]));
        }
        items.push((set.clone(), 999));
        items.push((set.clone(), 0));
    }
    ctx.par("entry points", &items, |(set, v)| {
        let member = set.contains(v);
        for (val, fset) in [(fe(*v), fes(set)), (drv("big", *v), set.iter().map(|x| drv("big", *x)).collect())] {
            let s = nonmem(val, fset);
            for r in [Rnd::Rng(3), given(1)] {
                if member {
                    honest_false(ctx, "non-member-entry", &s, 64, &r);
                } else {
                    honest_true(ctx, "non-member-entry", &s, 64, &r);
                }
            }
        }
    });
}

/// The set of values of the public output provable for the fixed inputs is exactly {want}
/// (or empty when `want` is None).
pub fn only_output(ctx: &Ctx, key: &str, mk: &(dyn Fn(&Fe) -> Stmt + Sync), want: Option<&Fe>) {
    if !HOOKS {
        return;
    }
    let s0 = mk(&fe(1));
    let at = |x: &Fe| -> Result<Circ, bulletproofs_amcl::errors::R1CSError> {
        let s = mk(x);
        match circuit(&s) {
            Err(p) => panic!("{}: verifier side panics: {}", s.name, p),
            Ok(r) => r,
        }
    };
    let (c, x) = match Circ::with_public(&at) {
        Err(e) => {
            ctx.viol(key, format!("{}: verifier side refuses: {:?}", s0.name, e));
            return;
        }
        Ok(None) => {
            // the public value enters in another way: decide single values instead
            ctx.count("output not affine in the circuit", 1);
            if let Some(w) = want {
                provable(ctx, key, &mk(w), &[], false);
            }
            for y in [fe(0), fe(1), fe(2), fe(3), drv("wrong", 1), Fe::minus_one()] {
                if want.map_or(true, |w| !eq(w, &y)) {
                    unprovable(ctx, key, &mk(&y), &[]);
                }
            }
            return;
        }
        Ok(Some(r)) => r,
    };
    // values for which the verifier builds another circuit than the one searched below
    let mut ys = vec![fe(0), fe(1), fe(2), Fe::minus_one(), drv("wrong", 1)];
    ys.extend(want.cloned());
    for y in ys {
        let is_want = want.map_or(false, |w| eq(w, &y));
        ctx.st(1);
        match at(&y) {
            Ok(d) if c.is_at(x, &y, &d) => {}
            Err(_) if !is_want => {}
            _ => {
                ctx.count("public value with a circuit of its own", 1);
                if is_want {
                    provable(ctx, key, &mk(&y), &[], false);
                } else {
                    unprovable(ctx, key, &mk(&y), &[]);
                }
            }
        }
    }
    let base = Circ { extra: 0, ..c.clone() };
    let fx = fixed_of(&s0, &base);
    if let Some(w) = want {
        let mut f2 = fx.clone();
        f2.push((x, w.clone()));
        let mut se = Search::new(&c);
        let a = se.solve(&f2);
        ctx.st(se.stats.nodes);
        ctx.tr(se.stats.assigns);
        if a.is_none() && !se.stats.exhausted && se.stats.menu == 0 {
            ctx.viol(key, format!("{}: the true output {} has no witness", s0.name, show(w)));
        }
    }
    let mut se = Search::new(&c);
    if let Some(w) = want {
        se = se.forbid(x, w.clone());
    }
    let a = se.solve(&fx);
    ctx.st(se.stats.nodes);
    ctx.tr(se.stats.assigns);
    ctx.count("search leaves", se.stats.leaves);
    if se.stats.exhausted {
        ctx.count("search budget exhausted", 1);
    }
    if let Some(mut a) = a {
        let y = a.pop().unwrap();
        let s = mk(&y);
        if let Ok(Ok(c2)) = circuit(&s) {
            if pad(&c2) > NGENS {
                // too large for a proof here; the witness satisfies the extracted circuit itself
                if c2.holds(&a) {
                    ctx.viol(key, format!("false statement {} satisfies the verifier's circuit", s.name));
                }
                return;
            }
            match replay(&s, &c2, &a) {
                Ok(true) => ctx.viol(key, format!("false statement {} is provable (true output {:?})", s.name, want.map(show))),
                Ok(false) => ctx.count("witness found in the model but its proof was rejected", 1),
                Err(p) => ctx.viol(key, format!("{}: verification panics: {}", s.name, p)),
            }
        }
    }
}

pub fn c14(ctx: &Ctx) {
    let to_u = |k: &Fe| -> u64 {
        let b = key(k);
        b[b.len() - 7..].iter().fold(0u64, |s, x| (s << 8) | *x as u64)
    };
    // all pairs of lists over {0,1,5}
    let k = ctx.b(2usize, 3);
    let mut items: Vec<(Vec<u64>, Vec<u64>)> = vec![(vec![], vec![])];
    for a in lists(&[0, 1, 5], k) {
        for b in lists(&[0, 1, 5], k) {
            if a.len() == b.len() {
                items.push((a.clone(), b));
            }
        }
    }
    for n in ctx.b((3usize..=12).chain([15, 16, 17, 24, 31, 32, 33]).collect::<Vec<_>>(), (3usize..=40).chain([48, 63]).collect()) {
        // every set of differing positions for short lists, prefixes and single positions for longer
        let masks: Vec<u64> = if n <= 5 { (0..1u64 << n).collect() } else { (0..n).map(|i| 1u64 << i).chain((0..=n).map(|i| (1u64 << i) - 1)).collect() };
        for m in masks {
            let a: Vec<u64> = (0..n as u64).map(|i| i + 1).collect();
            let b: Vec<u64> = (0..n as u64).map(|i| if m >> i & 1 == 1 { i + 2 } else { i + 1 }).collect();
            items.push((a, b));
        }
    }
    ctx.par("provable distances", &items, |(a, b)| {
        let d = a.iter().zip(b).filter(|(x, y)| x != y).count() as u64;
        let (fa, fb) = (fes(a), fes(b));
        only_output(ctx, "hamming", &|k: &Fe| hamming(fa.clone(), fb.clone(), to_u(k)), Some(&fe(d)));
        // the claimed distance is an integer: decide each one near the true one, and the extremes
        for k in [0, 1, d.saturating_sub(2), d.saturating_sub(1), d + 1, d + 2, a.len() as u64, a.len() as u64 + 1, 1 << 58, (1 << 58) + d, 1 << 63, (1 << 63) + d, d.wrapping_neg(), u64::MAX].into_iter().chain([8u32, 15, 16, 24, 31, 32, 33, 48, 62].iter().map(|w| (1u64 << w) + d)) {
            if k != d {
                unprovable(ctx, "hamming", &hamming(fa.clone(), fb.clone(), k), &[]);
            }
        }
    });
    // long lists, the differences at the end, at the start, everywhere and nowhere
    let mut long = vec![];
    for n in ctx.b(vec![63usize, 64, 65, 66, 129, 257], vec![63, 64, 65, 66, 127, 128, 129, 130, 200, 255, 256, 257, 300, 513]) {
        for w in 0..6usize {
            let a: Vec<u64> = (0..n as u64).map(|i| i * 5 + 1).collect();
            let diff = |i: usize| match w {
                0 => i + 1 == n,
                1 => i == 0,
                2 => true,
                3 => false,
                4 => i >= n / 2,
                _ => i % 3 == 1,
            };
            let b: Vec<u64> = (0..n).map(|i| a[i] + diff(i) as u64).collect();
            long.push((a, b));
        }
    }
    ctx.par("long lists", &long, |(a, b)| {
        let d = a.iter().zip(b).filter(|(x, y)| x != y).count() as u64;
        let (fa, fb) = (fes(a), fes(b));
        only_output(ctx, "hamming", &|k: &Fe| hamming(fa.clone(), fb.clone(), to_u(k)), Some(&fe(d)));
        if a.len() <= ctx.b(130, 260) {
            let n = (2 * a.len()).next_power_of_two();
            honest_true(ctx, "hamming-entry", &hamming(fa.clone(), fb.clone(), d), n, &Rnd::Neither);
            for k in [d + 1, d.saturating_sub(1), 0] {
                if k != d {
                    honest_false(ctx, "hamming-entry", &hamming(fa.clone(), fb.clone(), k), n, &Rnd::Neither);
                }
            }
        }
    });
    // the same through the entry points, every claimed distance
    let mut items2 = vec![];
    for (i, (a, b)) in items.iter().enumerate() {
        if a.len() <= 1 || a.len() <= 8 && i % ctx.b(7, 3) == 0 || a.len() > 8 && i % ctx.b(61, 13) == 0 {
            items2.push((a.clone(), b.clone()));
        }
    }
    ctx.par("entry points", &items2, |(a, b)| {
        let d = a.iter().zip(b).filter(|(x, y)| x != y).count() as u64;
        let n = (2 * a.len()).next_power_of_two();
        for k in (0..=(a.len() as u64 + 1)).chain(if a.len() < 4 { vec![(1 << 58) + d, (1 << 63) + d, u64::MAX] } else { vec![] }) {
            if a.len() > 8 && k != 0 && k + 1 != d && k != d && k != d + 1 {
                continue;
            }
            for (fa, fb) in [(fes(a), fes(b)), (a.iter().map(|x| drv("h", *x)).collect(), b.iter().map(|x| drv("h", *x)).collect())] {
                let s = hamming(fa, fb, k);
                if k == d {
                    honest_true(ctx, "hamming-entry", &s, n, &Rnd::Neither);
                } else {
                    honest_false(ctx, "hamming-entry", &s, n, &Rnd::Neither);
                }
            }
        }
    });
    // lists of different lengths are errors on both sides
    let mut items = vec![];
    for i in 0..4usize {
        for j in 0..4usize {
            if i != j {
                items.push((i, j));
            }
        }
    }
    ctx.par("different lengths", &items, |&(i, j)| {
        let mut s = hamming(vec![fe(1); i], vec![fe(1); j], 0);
        let o = honest(&s, &gens(16), &Rnd::Neither);
        ctx.check(o.0 == Out::Refused, "hamming-len", || format!("lists of lengths {} and {}: {:?} {}", i, j, o.0, o.1));
        s.ncomm = i;
        if HOOKS {
            let c = circuit(&s);
            ctx.check(matches!(c, Ok(Err(_))), "hamming-len", || format!("verifier with {} commitments for {} values does not refuse", i, j));
        }
    });
}

fn mimc_ref(l: &Fe, r: &Fe, c: &[Fe]) -> Fe {
    let (mut l, mut r) = (l.clone(), r.clone());
    for k in c {
        let t = &l + k;
        let t3 = &t * &t * &t;
        let n = t3 + &r;
        r = l;
        l = n;
    }
    l
}
pub fn c15(ctx: &Ctx) {
    let vals: Vec<Fe> = vec![fe(0), fe(1), Fe::minus_one(), fe(5), drv("v", 1), drv("v", 2)];
    let consts = |kind: usize, n: usize| -> Vec<Fe> {
        (0..n)
            .map(|i| match kind {
                0 => fe(0),
                1 => fe(i as u64 + 1),
                2 => drv("c", i as u64),
                _ => {
                    if i == 0 {
                        fe(5).negation()
                    } else {
                        fe(1)
                    }
                }
            })
            .collect()
    };
    let rounds: Vec<usize> = ctx.b((0..=12).chain([15, 16, 17, 31, 32, 33, 64, 100, 128, 201, 256, 257, 300, 322]).collect(), (0..=130).chain([200, 201, 255, 256, 257, 300, 322, 400, 512, 513]).collect());
    let mut items = vec![];
    for n in &rounds {
        for k in 0..4usize {
            for a in 0..vals.len() {
                for b in 0..vals.len() {
                    items.push((*n, k, a, b));
                }
            }
        }
    }
    ctx.par("native function", &items, |&(n, k, a, b)| {
        let c = consts(k, n);
        ctx.st(1);
        ctx.tr(n as u64);
        let r = guard(|| mimc_native::mimc(&vals[a], &vals[b], &c, n));
        let w = mimc_ref(&vals[a], &vals[b], &c);
        ctx.check(r.as_ref().map_or(false, |x| eq(x, &w)), "mimc-native", || {
            format!("mimc({}, {}, constants kind {}, {} rounds) = {:?}, definition gives {}", show(&vals[a]), show(&vals[b]), k, n, r.as_ref().map(show), show(&w))
        });
    });
    let circ_items: Vec<_> = items.iter().filter(|x| x.0 <= 16 || (x.2 == 3 && x.3 == 4)).cloned().collect();
    ctx.par("provable images", &circ_items, |&(n, k, a, b)| {
        let c = consts(k, n);
        let w = mimc_ref(&vals[a], &vals[b], &c);
        only_output(ctx, "mimc", &|x: &Fe| mimc(vec![vals[a].clone(), vals[b].clone()], x.clone(), c.clone(), n), Some(&w));
    });
    let e2e: Vec<_> = items.iter().filter(|x| x.0 <= ctx.b(5, 16) && x.1 >= 2 && (x.2 + x.3) % ctx.b(3, 1) == 0).cloned().collect();
    ctx.par("entry points", &e2e, |&(n, k, a, b)| {
        let c = consts(k, n);
        let (x, y) = (vals[a].clone(), vals[b].clone());
        let w = mimc_ref(&x, &y, &c);
        let g = gens((2 * n).next_power_of_two());
        let s = mimc(vec![x.clone(), y.clone()], w.clone(), c.clone(), n);
        honest_true(ctx, "mimc-entry", &s, g.G.as_slice().len(), &given(2));
        let swapped = mimc_ref(&y, &x, &c);
        let mut c2 = c.clone();
        if n > 0 {
            c2[n - 1] = &c2[n - 1] + Fe::one();
        }
        let other = mimc_ref(&x, &y, &c2);
        let mut wrong = vec![&w + Fe::one(), fe(0), swapped, other, mimc_ref(&x, &y, &c[..n.saturating_sub(1)])];
        wrong.retain(|z| !eq(z, &w));
        for z in wrong {
            let s2 = mimc(vec![x.clone(), y.clone()], z, c.clone(), n);
            honest_false(ctx, "mimc-entry", &s2, g.G.as_slice().len(), &Rnd::Rng(5));
        }
        // a proof made for these constants does not verify under others or for another round count
        if let Ok(Ok((p, cm))) = guard(|| (s.gw)(&g, &given(2), GL)) {
            let mut alts = vec![];
            for i in 0..n {
                let mut c3 = c.clone();
                c3[i] = &c3[i] + Fe::one();
                alts.push((c3, n));
            }
            if n > 0 {
                alts.push((c[..n - 1].to_vec(), n - 1));
            }
            for (c3, n3) in alts {
                if eq(&mimc_ref(&x, &y, &c3), &w) {
                    continue;
                }
                ctx.tv(1);
                let s3 = mimc(vec![x.clone(), y.clone()], w.clone(), c3, n3);
                let r = guard(|| (s3.vw)(&g, p.clone(), cm.clone(), GL).is_ok());
                ctx.check(r == Ok(false), "mimc-entry", || format!("{}: accepted under other constants / rounds ({:?})", s.name, r));
            }
        }
    });
}
