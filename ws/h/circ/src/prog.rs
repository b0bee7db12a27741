//! Random circuits together with an independent record of what they demand.

use crate::Row;
use ark_ff::PrimeField;
use jf_relation::{gates::Gate, Circuit, PlonkCircuit};
use std::collections::HashSet;
use vh::{gen, Case};

/// A gate with arbitrary selectors.
#[derive(Clone, Debug)]
pub struct Raw<F>(pub Row<F>);

impl<F: PrimeField> Gate<F> for Raw<F> {
    fn name(&self) -> &'static str {
        "raw"
    }
    fn q_lc(&self) -> [F; 4] {
        self.0.lc
    }
    fn q_hash(&self) -> [F; 4] {
        self.0.hash
    }
    fn q_mul(&self) -> [F; 2] {
        self.0.mul
    }
    fn q_ecc(&self) -> F {
        self.0.ecc
    }
    fn q_c(&self) -> F {
        self.0.c
    }
    fn q_o(&self) -> F {
        self.0.o
    }
}

#[derive(Clone, Debug)]
pub enum Con<F> {
    /// a gate with selectors of the harness
    Row(Row<F>),
    /// a built-in gate, as an equation
    Built(Row<F>),
    /// a public input, by the variable it publishes
    Input(usize),
    Range(usize),
    /// table, key, values
    Lookup(usize, usize, usize, usize),
}

#[derive(Clone)]
pub struct Prog<F: PrimeField> {
    pub cs: PlonkCircuit<F>,
    pub cons: Vec<Con<F>>,
    pub tables: Vec<Vec<(usize, usize)>>,
    pub inputs: Vec<usize>,
    pub range: Option<usize>,
    pub wit: Vec<F>,
}

/// What a program may contain.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub ultra: Option<usize>,
    pub ops: usize,
    pub inputs: bool,
    pub tables: bool,
}

fn row<F: PrimeField>(w: [usize; 5]) -> Row<F> {
    let z = F::zero();
    Row { lc: [z; 4], mul: [z; 2], hash: [z; 4], o: z, c: z, ecc: z, w }
}

impl<F: PrimeField> Prog<F> {
    pub fn new(ultra: Option<usize>) -> Self {
        let cs = match ultra {
            Some(b) => PlonkCircuit::new_ultra_plonk(b),
            None => PlonkCircuit::new_turbo_plonk(),
        };
        let mut p = Prog {
            cs,
            cons: vec![],
            tables: vec![],
            inputs: vec![],
            range: ultra,
            wit: vec![F::zero(), F::one()],
        };
        // the two constants every circuit starts with
        p.cons.push(Con::Built(Row { o: F::one(), ..row([0, 0, 0, 0, 0]) }));
        p.cons.push(Con::Built(Row { o: F::one(), c: F::one(), ..row([0, 0, 0, 0, 1]) }));
        p
    }

    pub fn var(&mut self, x: F) -> usize {
        self.wit.push(x);
        self.cs.create_variable(x).unwrap()
    }

    pub fn publish(&mut self, v: usize) {
        self.cs.set_variable_public(v).unwrap();
        self.cons.push(Con::Input(v));
        self.inputs.push(v);
    }

    fn any(&self, c: &mut Case) -> usize {
        c.below(self.wit.len())
    }

    /// A satisfied gate over random earlier variables.
    pub fn gate(&mut self, c: &mut Case) {
        let w: [usize; 4] = std::array::from_fn(|_| self.any(c));
        let mut r = row([w[0], w[1], w[2], w[3], 0]);
        for k in 0..4 {
            if c.coin() {
                r.lc[k] = gen::field(c);
            }
            if c.below(3) == 0 {
                r.hash[k] = gen::field(c);
            }
        }
        for k in 0..2 {
            if c.coin() {
                r.mul[k] = gen::field(c);
            }
        }
        if c.below(3) == 0 {
            r.ecc = gen::field(c);
        }
        if c.coin() {
            r.c = gen::field(c);
        }
        r.o = if c.below(4) == 0 { F::zero() } else { gen::field(c) };
        let x = |k: usize| self.wit[w[k]];
        let vals = [x(0), x(1), x(2), x(3), F::zero()];
        let rest = crate::Sys::residual(&r, vals, F::zero());
        let coef = r.o - r.ecc * x(0) * x(1) * x(2) * x(3);
        match coef.inverse() {
            Some(i) if c.below(5) > 0 => r.w[4] = self.var(rest * i),
            _ => {
                // make it hold on an existing variable through the constant
                r.w[4] = self.any(c);
                r.c += coef * self.wit[r.w[4]] - rest;
            },
        }
        self.cs.insert_gate(&r.w, Box::new(Raw(r.clone()))).unwrap();
        self.cons.push(Con::Row(r));
    }

    /// One of the built-in gates.
    pub fn builtin(&mut self, c: &mut Case) {
        let (a, b) = (self.any(c), self.any(c));
        let (x, y) = (self.wit[a], self.wit[b]);
        let one = F::one();
        match c.below(6) {
            0 => {
                let v = self.cs.add(a, b).unwrap();
                self.wit.push(x + y);
                self.cons.push(Con::Built(Row { lc: [one, one, F::zero(), F::zero()], o: one, ..row([a, b, 0, 0, v]) }));
            },
            1 => {
                let v = self.cs.sub(a, b).unwrap();
                self.wit.push(x - y);
                self.cons.push(Con::Built(Row { lc: [one, -one, F::zero(), F::zero()], o: one, ..row([a, b, 0, 0, v]) }));
            },
            2 => {
                let v = self.cs.mul(a, b).unwrap();
                self.wit.push(x * y);
                self.cons.push(Con::Built(Row { mul: [one, F::zero()], o: one, ..row([a, b, 0, 0, v]) }));
            },
            3 => {
                let v = self.var(x);
                self.cs.enforce_equal(a, v).unwrap();
                self.cons.push(Con::Built(Row { lc: [one, -one, F::zero(), F::zero()], ..row([a, v, 0, 0, 0]) }));
            },
            4 => {
                self.cs.enforce_constant(a, x).unwrap();
                self.cons.push(Con::Built(Row { c: x, o: one, ..row([0, 0, 0, 0, a]) }));
            },
            _ => {
                let k = c.range(1, 3);
                self.cs.pad_gates(k);
                for _ in 0..k {
                    self.cons.push(Con::Built(Row { lc: [one, -one, F::zero(), F::zero()], ..row([0, 0, 0, 0, 0]) }));
                }
            },
        }
    }

    pub fn ranged(&mut self, c: &mut Case) {
        let Some(b) = self.range else { return };
        let top = (1usize << b) - 1;
        let x = match c.below(3) {
            0 => 0,
            1 => top,
            _ => c.range(0, top),
        };
        let v = self.var(F::from(x as u64));
        let times = if c.below(6) == 0 { c.range(1, 5) } else { 1 };
        for _ in 0..times {
            self.cs.add_range_check_variable(v).unwrap();
            self.cons.push(Con::Range(v));
        }
    }

    /// A table of existing variables and some lookups into it.
    pub fn table(&mut self, c: &mut Case) {
        let n = c.range(1, 6);
        let m = if c.below(6) == 0 { 0 } else { c.range(1, 8) };
        self.table_of(c, n, m);
    }

    fn filler(&mut self, c: &mut Case) {
        let n = self.cs.num_gates();
        self.gate(c);
        assert_eq!(self.cs.num_gates(), n + 1);
    }

    /// A table of n rows with m lookups.
    pub fn table_of(&mut self, c: &mut Case, n: usize, m: usize) {
        let t: Vec<(usize, usize)> = (0..n).map(|_| (self.any(c), self.any(c))).collect();
        let look: Vec<(usize, usize, usize)> = (0..m)
            .map(|_| {
                let k = c.below(n);
                let key = self.var(F::from(k as u64));
                let fresh = c.coin();
                let (a, b) = t[k];
                if fresh {
                    let (x, y) = (self.wit[a], self.wit[b]);
                    (key, self.var(x), self.var(y))
                } else {
                    (key, a, b)
                }
            })
            .collect();
        self.cs.create_table_and_lookup_variables(&look, &t).unwrap();
        for (k, a, b) in look {
            self.cons.push(Con::Lookup(self.tables.len(), k, a, b));
        }
        self.tables.push(t);
    }

    /// A satisfied random program.
    pub fn random(c: &mut Case, s: Shape) -> Self {
        let mut p = Prog::new(s.ultra);
        for _ in 0..c.range(0, 3) {
            let x = gen::field(c);
            p.var(x);
        }
        // sometimes mostly of one kind
        let most = match c.below(8) {
            0 => Some(0),
            1 => Some(1),
            2 => Some(3),
            _ => None,
        };
        for _ in 0..s.ops {
            let kind = match most {
                Some(k) if c.below(5) > 0 => k,
                _ => c.below(10),
            };
            match kind {
                0 if s.inputs => {
                    let v = if c.coin() { p.any(c) } else { let x = gen::field(c); p.var(x) };
                    p.publish(v);
                },
                1 | 2 => p.ranged(c),
                3 if s.ultra.is_some() && s.tables => p.table(c),
                4 | 5 | 6 => p.builtin(c),
                _ => p.gate(c),
            }
        }
        // often end exactly at, or next to, a power of two, with a gate or a
        // table in the last place
        if c.coin() {
            let end = s.ultra.is_some() && s.tables && c.coin();
            let extra = if end { 8 } else { 0 };
            let full = (p.cs.num_gates() + extra).next_power_of_two() + c.range(0, 2) - 1;
            if end {
                let size = c.range(1, 8);
                while p.cs.num_gates() + size < full {
                    p.filler(c);
                }
                p.table_of(c, size, size);
            }
            while p.cs.num_gates() < full {
                p.filler(c);
            }
        }
        p
    }

    /// Whether the assignment breaks any demand. Lookup and gate demands can
    /// be asked for separately.
    pub fn broken_rows(&self, wit: &[F], pis: &[F]) -> bool {
        let mut k = 0;
        pis.len() != self.inputs.len()
            || self.cons.iter().any(|con| match con {
                Con::Row(r) | Con::Built(r) => {
                    let w: [F; 5] = std::array::from_fn(|i| wit[r.w[i]]);
                    !crate::Sys::residual(r, w, F::zero()).is_zero()
                },
                Con::Input(v) => {
                    k += 1;
                    wit[*v] != pis[k - 1]
                },
                _ => false,
            })
    }

    pub fn broken_lookups(&self, wit: &[F]) -> bool {
        self.cons.iter().any(|con| match con {
            Con::Range(v) => wit[*v] >= F::from(1u64 << self.range.unwrap()),
            Con::Lookup(t, k, a, b) => !self.tables[*t]
                .iter()
                .enumerate()
                .any(|(i, (x, y))| (F::from(i as u64), wit[*x], wit[*y]) == (wit[*k], wit[*a], wit[*b])),
            _ => false,
        })
    }

    pub fn broken(&self, wit: &[F], pis: &[F]) -> bool {
        self.broken_rows(wit, pis) || self.broken_lookups(wit)
    }

    pub fn pis(&self) -> Vec<F> {
        self.inputs.iter().map(|v| self.wit[*v]).collect()
    }

    /// Variables that some demand speaks of.
    pub fn used(&self) -> Vec<usize> {
        let mut s = HashSet::new();
        for con in &self.cons {
            match con {
                Con::Row(r) | Con::Built(r) => s.extend(r.w),
                Con::Input(v) | Con::Range(v) => {
                    s.insert(*v);
                },
                Con::Lookup(_, a, b, d) => s.extend([*a, *b, *d]),
            }
        }
        let mut v: Vec<_> = s.into_iter().collect();
        v.sort();
        v
    }

    /// The circuit with other values.
    pub fn with(&self, wit: &[F]) -> PlonkCircuit<F> {
        let mut cs = self.cs.clone();
        for (v, x) in wit.iter().enumerate() {
            *cs.witness_mut(v) = *x;
        }
        cs
    }

    /// A changed assignment and changed public inputs, biased to near misses.
    pub fn tamper(&self, c: &mut Case) -> (Vec<F>, Vec<F>) {
        let mut wit = self.wit.clone();
        let mut pis = self.pis();
        match c.below(8) {
            0 if !pis.is_empty() => {
                let i = c.below(pis.len());
                pis[i] += F::one();
            },
            1 if pis.len() > 1 => {
                let (i, j) = (c.below(pis.len()), c.below(pis.len()));
                pis.swap(i, j);
            },
            2 => {
                let a = c.below(wit.len());
                let b = c.below(wit.len());
                wit.swap(a, b);
            },
            3 | 4 => {
                // aim at a lookup or range demand
                let aim: Vec<usize> = self
                    .cons
                    .iter()
                    .flat_map(|k| match k {
                        Con::Range(v) => vec![*v],
                        Con::Lookup(_, a, b, d) => vec![*a, *b, *d],
                        _ => vec![],
                    })
                    .collect();
                if aim.is_empty() {
                    let v = c.below(wit.len());
                    wit[v] += F::one();
                } else {
                    let v = c.pick(&aim);
                    wit[v] = match c.below(5) {
                        0 => F::zero(),
                        1 => wit[v] + F::one(),
                        2 => F::from(1u64 << self.range.unwrap_or(4)),
                        3 => wit[c.below(wit.len())],
                        _ => gen::field(c),
                    };
                }
            },
            _ => {
                for _ in 0..c.range(1, 2) {
                    let v = c.below(wit.len());
                    wit[v] = gen::field(c);
                }
            },
        }
        (wit, pis)
    }
}
