//! Transcripts of the commitment schemes.

use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, PrimeField};
use jf_pcs::transcript::IOPTranscript;
use vh::{gen, Case};

const LABELS: [&[u8]; 5] = [b"", b"a", b"b", b"ab", b"q(x)"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Step {
    Message(usize, Vec<u8>),
    Field(usize, Fr),
    Point(usize, u64),
    Challenge(usize),
    Bytes(usize, usize),
}

fn step(c: &mut Case) -> Step {
    let label = c.below(LABELS.len());
    match c.below(6) {
        0 => {
            let n = gen::size(c, 40, 5000);
            Step::Message(label, gen::bytes(c, n))
        },
        1 => Step::Message(label, vec![0; c.below(5)]),
        2 => Step::Field(label, gen::field(c)),
        3 => Step::Point(label, c.below(1000) as u64),
        4 => Step::Challenge(label),
        _ => Step::Bytes(label, c.range(1, 70)),
    }
}

/// What the verifier would see: every challenge, and one at the end.
fn run(c: &mut Case, start: usize, steps: &[Step]) -> Option<Vec<Vec<u8>>> {
    let mut t = IOPTranscript::<Fr>::new(LABELS[start]);
    let mut seen = vec![];
    let mut empty = true;
    for s in steps {
        c.ev("run");
        match s {
            Step::Message(l, m) => {
                c.ok(t.append_message(LABELS[*l], m), "append")?;
                empty = false;
            },
            Step::Field(l, x) => {
                c.ok(t.append_serializable_element(LABELS[*l], x), "append")?;
                empty = false;
            },
            Step::Point(l, x) => {
                let p = (G1Affine::generator() * Fr::from(*x)).into_affine();
                c.ok(t.append_serializable_element(LABELS[*l], &p), "append")?;
                empty = false;
            },
            Step::Challenge(l) => {
                let got = t.get_and_append_challenge(LABELS[*l]);
                if empty {
                    c.check(got.is_err(), "challenge_from_nothing", || format!("{got:?}"));
                } else {
                    seen.push(c.ok(got, "challenge")?.into_bigint().to_bytes_le());
                }
            },
            Step::Bytes(l, n) => {
                let mut buf = vec![0u8; *n];
                let got = t.get_and_append_byte_challenge(LABELS[*l], &mut buf);
                if empty {
                    c.check(got.is_err(), "challenge_from_nothing", || format!("{got:?}"));
                } else {
                    c.ok(got, "challenge")?;
                    seen.push(buf);
                }
            },
        }
    }
    if !empty {
        let x = c.ok(t.get_and_append_challenge(b"end"), "challenge")?;
        let y = c.ok(t.get_and_append_challenge(b"end"), "challenge")?;
        c.check(x != y, "repeated_challenge", || "two challenges in a row are equal".into());
        seen.push(x.into_bigint().to_bytes_le());
    }
    Some(seen)
}

pub fn histories(c: &mut Case) {
    let start = c.below(LABELS.len());
    let n = c.range(1, 8);
    let a: Vec<Step> = (0..n).map(|_| step(c)).collect();
    let mut b = a.clone();
    let mut start_b = start;
    let i = c.below(n);
    let how = c.below(8);
    match how {
        0 => start_b = (start + 1) % LABELS.len(),
        1 => match &mut b[i] {
            Step::Message(l, _) | Step::Field(l, _) | Step::Point(l, _) | Step::Challenge(l) | Step::Bytes(l, _) => *l = (*l + 1) % LABELS.len(),
        },
        2 => match &mut b[i] {
            Step::Message(_, m) => {
                if m.is_empty() || c.coin() {
                    m.push(0)
                } else {
                    gen::flip(c, m)
                }
            },
            Step::Field(_, x) => *x += Fr::from(1u64),
            Step::Point(_, x) => *x += 1,
            Step::Challenge(_) => b[i] = Step::Message(1, vec![]),
            Step::Bytes(_, n) => *n += 1,
        },
        3 => {
            b.remove(i);
        },
        4 => {
            let s = step(c);
            b.insert(i, s);
        },
        5 => b.swap(i, n - 1),
        // the same bytes cut elsewhere
        6 => {
            let n = c.range(1, 12);
            let bytes = gen::bytes(c, n);
            let (x, y) = (c.below(n + 1), c.below(n + 1));
            let cut = |k: usize| [Step::Message(1, bytes[..k].to_vec()), Step::Message(1, bytes[k..].to_vec())];
            let (mut a2, mut b2) = (a.clone(), a.clone());
            a2.splice(i..i, cut(x));
            b2.splice(i..i, cut(y));
            return compare(c, start, &a2, start, &b2, how);
        },
        _ => {
            let n = c.range(1, 12);
            let bytes = gen::bytes(c, n);
            let x = c.below(n + 1);
            let (mut a2, mut b2) = (a.clone(), a.clone());
            a2.splice(i..i, [Step::Message(1, bytes.clone())]);
            b2.splice(i..i, [Step::Message(1, bytes[..x].to_vec()), Step::Message(1, bytes[x..].to_vec())]);
            return compare(c, start, &a2, start, &b2, how);
        },
    }
    compare(c, start, &a, start_b, &b, how)
}

/// Steps that reach the transcript: challenges asked for too early do not.
fn effective(steps: &[Step]) -> &[Step] {
    let k = steps.iter().position(|s| !matches!(s, Step::Challenge(_) | Step::Bytes(..))).unwrap_or(steps.len());
    &steps[k..]
}

fn compare(c: &mut Case, sa: usize, a: &[Step], sb: usize, b: &[Step], how: usize) {
    c.key((sa, a.to_vec(), sb, b.to_vec()));
    let (Some(x), Some(again), Some(y)) = (run(c, sa, a), run(c, sa, a), run(c, sb, b)) else { return };
    c.check(x == again, "not_repeatable", || format!("{a:?}"));
    let (ea, eb) = (effective(a), effective(b));
    if ea.is_empty() || eb.is_empty() {
        return;
    }
    let same = sa == sb && ea == eb;
    c.check((x.last() == y.last()) == same, if same { "not_repeatable" } else { "same_challenge" }, || format!("change {how}: {sa} {a:?} and {sb} {b:?}"));
    // until they part, both see the same challenges; then never again
    if sa == sb {
        let part = ea.iter().zip(eb).take_while(|(p, q)| p == q).count();
        let asked = ea[..part].iter().filter(|s| matches!(s, Step::Challenge(_) | Step::Bytes(..))).count();
        c.check(x[..asked] == y[..asked], "parted_early", || format!("change {how}: {a:?} and {b:?}"));
        if !same {
            for (p, q) in x[asked..].iter().zip(&y[asked..]) {
                // byte challenges may be very short
                if p.len().min(q.len()) >= 16 {
                    let k = p.len().min(q.len());
                    let differ = matches!((ea.get(part), eb.get(part)), (Some(Step::Bytes(..)), Some(Step::Bytes(..))));
                    c.check(differ || p[..k] != q[..k], "same_challenge_later", || format!("change {how}: {a:?} and {b:?}"));
                }
            }
        }
    }
}

/// Challenges spread over the whole field and no bit is stuck.
pub fn spread(c: &mut Case) {
    let n = 160;
    let mut ones = vec![0usize; 256];
    let mut seen = std::collections::HashSet::new();
    c.key(c.idx);
    for i in 0..n {
        let mut t = IOPTranscript::<Fr>::new(b"spread");
        let mut m = c.bytes(8);
        m.push(i as u8);
        let _ = t.append_message(b"m", &m);
        c.ev("spread");
        let Some(x) = c.ok(t.get_and_append_challenge(b"x"), "challenge") else { return };
        seen.insert(x);
        for (k, bit) in x.into_bigint().to_bits_le().iter().enumerate() {
            ones[k] += *bit as usize;
        }
    }
    c.eq(&seen.len(), &n, "challenges_repeat");
    // an honest bit leaves the middle with probability below 2^-60
    for (k, &v) in ones.iter().enumerate().take(Fr::MODULUS_BIT_SIZE as usize - 2) {
        c.check(v > n / 16 && v < n - n / 16, "stuck_bit", || format!("bit {k}: {v} of {n}"));
    }
}
