//! The verifier's equation, written out from the paper over exponents.

use crate::base::*;
use ark_ff::PrimeField;

#[derive(Clone, Debug)]
pub struct Chal<F> {
    pub tau: F,
    pub beta: F,
    pub gamma: F,
    pub alpha: F,
    pub zeta: F,
    pub v: F,
    pub u: F,
}

impl<F: PrimeField> Chal<F> {
    /// From the challenges in the order they are drawn.
    pub fn of(list: &[F], lookup: bool) -> Option<Self> {
        let (tau, rest) = if lookup { (*list.first()?, list.get(1..)?) } else { (F::zero(), list) };
        let &[beta, gamma, alpha, zeta, v, u] = rest else { return None };
        Some(Self { tau, beta, gamma, alpha, zeta, v, u })
    }
}

/// The two halves of the claim: what `open` and `shift` have to be multiplied
/// out to, as `open * (x - zeta) = a` and `shift * (x - zeta * w) = b`.
#[derive(Clone, Debug)]
pub struct Sides<F> {
    pub a: F,
    pub b: F,
    pub zeta: F,
    pub next: F,
}

/// Value at z of the polynomial that is 1 at the i-th root and 0 at the others.
pub fn lagrange<F: PrimeField>(n: usize, w: F, i: usize, z: F) -> F {
    let wi = w.pow([i as u64]);
    if z == wi {
        return F::one();
    }
    let num = z.pow([n as u64]) - F::one();
    wi * num * (F::from(n as u64) * (z - wi)).inverse().unwrap()
}

pub fn root<F: PrimeField>(n: usize) -> F {
    F::get_root_of_unity(n as u64).expect("root of unity")
}

pub fn sides<F: PrimeField>(keys: &[&XKey<F>], pis: &[&[F]], p: &XProof<F>, ch: &Chal<F>) -> Sides<F> {
    let one = F::one();
    let n = keys[0].n;
    let w = root::<F>(n);
    let Chal { tau, beta, gamma, alpha, zeta, v, .. } = ch.clone();
    let l1 = lagrange(n, w, 0, zeta);
    let ln = lagrange(n, w, n - 1, zeta);
    let last = w.pow([n as u64 - 1]);

    // the combined identity at zeta: everything but the quotient
    let mut total = F::zero();
    let mut scale = one;
    for ((key, pi), i) in keys.iter().zip(pis).zip(&p.inst) {
        let e = &i.wire_evals;
        // gates
        let mut terms = vec![e[0], e[1], e[2], e[3], e[0] * e[1], e[2] * e[3]];
        terms.extend((0..4).map(|j| e[j].pow([5u64])));
        terms.push(-e[4]);
        terms.push(one);
        terms.push(e[0] * e[1] * e[2] * e[3] * e[4]);
        let mut inst: F = terms.iter().zip(&key.sel).map(|(t, q)| *t * q).sum();
        // public inputs; the second half of a merged circuit sits at the end
        let half = if key.merged { pi.len() / 2 } else { pi.len() };
        for (j, x) in pi.iter().enumerate() {
            let at = if j < half { j } else { n - 1 - (j - half) };
            inst += lagrange(n, w, at, zeta) * x;
        }
        // wiring
        let mut left = i.z;
        for (x, k) in e.iter().zip(&key.k) {
            left *= *x + beta * k * zeta + gamma;
        }
        let mut right = i.z_next;
        let m = key.sigma.len() - 1;
        for (x, y) in e[..m].iter().zip(&i.sigma_evals) {
            right *= *x + beta * y + gamma;
        }
        right *= e[m] + beta * key.sigma[m] + gamma;
        inst += alpha * (left - right) + alpha * alpha * l1 * (i.z - one);
        // lookups
        let mut powers = 3;
        if let Some(l) = &i.lk {
            powers = 7;
            let t = |r: usize, k: usize, q: usize, w3: F, w4: F, s: usize| {
                l.ev[r] + l.ev[q] * tau * (l.ev[s] + tau * (l.ev[k] + tau * (w3 + tau * w4)))
            };
            let f = e[5] + l.ev[Q_LOOKUP] * tau * (l.ev[Q_SEP] + tau * (e[0] + tau * (e[1] + tau * e[2])));
            let here = t(RANGE, KEY, Q_LOOKUP, e[3], e[4], TABLE_SEP);
            let next = t(RANGE_NEXT, KEY_NEXT, Q_LOOKUP_NEXT, l.ev[W3_NEXT], l.ev[W4_NEXT], TABLE_SEP_NEXT);
            let a = |k: u64| alpha.pow([k]);
            let g1 = gamma * (one + beta);
            inst += a(3) * ln * (l.ev[H1] - l.ev[H2_NEXT]);
            inst += a(4) * l1 * (l.prod - one);
            inst += a(5) * ln * (l.prod - one);
            inst += a(6)
                * (zeta - last)
                * (l.prod * (one + beta) * (gamma + f) * (g1 + here + beta * next)
                    - l.ev[PROD_NEXT]
                        * (g1 + l.ev[H1] + beta * l.ev[H1_NEXT])
                        * (g1 + l.h[1] + beta * l.ev[H2_NEXT]));
        }
        total += scale * inst;
        scale *= alpha.pow([powers]);
    }
    let vanish = zeta.pow([n as u64]) - one;
    let step = zeta.pow([n as u64 + 2]);
    let mut chunk = one;
    for q in &p.quot {
        total -= vanish * chunk * q;
        chunk *= step;
    }

    // the openings
    let mut at_zeta: Vec<(F, F)> = vec![];
    let mut at_next: Vec<(F, F)> = vec![];
    for (key, i) in keys.iter().zip(&p.inst) {
        // one list against the other, wherever they are cut
        let coms = i.wires.iter().chain(key.sigma.iter().take(i.wires.len().saturating_sub(1)));
        let vals = i.wire_evals.iter().chain(&i.sigma_evals);
        at_zeta.extend(coms.copied().zip(vals.copied()));
        at_next.push((i.z, i.z_next));
        if let (Some(l), Some(k)) = (&i.lk, &key.lk) {
            let q = *key.sel.last().unwrap();
            at_zeta.extend([
                (k[0], l.ev[RANGE]),
                (k[1], l.ev[KEY]),
                (l.h[0], l.ev[H1]),
                (q, l.ev[Q_LOOKUP]),
                (k[2], l.ev[TABLE_SEP]),
                (k[3], l.ev[Q_SEP]),
            ]);
            at_next.extend([
                (l.prod, l.ev[PROD_NEXT]),
                (k[0], l.ev[RANGE_NEXT]),
                (k[1], l.ev[KEY_NEXT]),
                (l.h[0], l.ev[H1_NEXT]),
                (l.h[1], l.ev[H2_NEXT]),
                (q, l.ev[Q_LOOKUP_NEXT]),
                (i.wires[3], l.ev[W3_NEXT]),
                (i.wires[4], l.ev[W4_NEXT]),
                (k[2], l.ev[TABLE_SEP_NEXT]),
            ]);
        }
    }
    let mut a = total;
    let mut r = v;
    for (com, val) in at_zeta {
        a += r * (com - val);
        r *= v;
    }
    let mut b = F::zero();
    let mut r = one;
    for (com, val) in at_next {
        b += r * (com - val);
        r *= v;
    }
    Sides { a, b, zeta, next: zeta * w }
}

impl<F: PrimeField> Sides<F> {
    /// The openings an honest prover would give, if there are any.
    pub fn openings(&self, x: F) -> Option<(F, F)> {
        Some((self.a * (x - self.zeta).inverse()?, self.b * (x - self.next).inverse()?))
    }

    /// How far the openings are from satisfying the equation.
    pub fn error(&self, x: F, u: F, open: F, shift: F) -> F {
        open * (x - self.zeta) - self.a + u * (shift * (x - self.next) - self.b)
    }
}
