//! Shared by the demonstrations: does an assignment satisfy a recorded circuit?
#![allow(dead_code)]
use halo2_proofs::circuit::{Loc, Recorder};
use halo2_proofs::plonk::{Any, ConstraintSystem};
pub use halo2curves::bn256::Fr;
pub use halo2curves::ff::{Field, PrimeField};
use std::collections::BTreeMap;

/// advice values by (column, row); missing cells are zero
pub type Adv = BTreeMap<(usize, usize), Fr>;
pub fn honest(rec: &Recorder<Fr>) -> Adv {
    rec.advice.iter().map(|(k, v)| (*k, v.into_option().expect("witness"))).collect()
}
pub fn get(rec: &Recorder<Fr>, adv: &Adv, l: Loc) -> Fr {
    match l.0 {
        Any::Advice => adv.get(&(l.1, l.2)).copied().unwrap_or(Fr::ZERO),
        _ => rec.fixed.get(&(l.1, l.2)).copied().unwrap_or(Fr::ZERO),
    }
}
pub fn check(cs: &ConstraintSystem<Fr>, rec: &Recorder<Fr>, adv: &Adv) -> Result<(), String> {
    let n = rec.rows() + 10;
    let ev = |e: &halo2_proofs::plonk::Expression<Fr>, row: usize| -> Fr {
        let at = |rot: i32| (row as i64 + rot as i64).rem_euclid(n as i64) as usize;
        e.eval::<Fr>(
            &|c| c,
            &|s| if rec.selectors.contains(&(s.index(), row)) { Fr::ONE } else { Fr::ZERO },
            &|c, r| rec.fixed.get(&(c.index(), at(r.0))).copied().unwrap_or(Fr::ZERO),
            &|c, r| adv.get(&(c.index(), at(r.0))).copied().unwrap_or(Fr::ZERO),
            &|a| -a,
            &|a, b| a + b,
            &|a, b| a * b,
        )
    };
    for g in &cs.gates {
        for (k, p) in g.polys.iter().enumerate() {
            for row in 0..n {
                if ev(p, row) != Fr::ZERO {
                    return Err(format!("gate {} #{k} at row {row}", g.name));
                }
            }
        }
    }
    for l in &cs.lookups {
        for (e, t) in &l.pairs {
            let table: Vec<Fr> = rec.tables.iter().filter(|(k, _)| k.0 == t.inner().index()).map(|x| *x.1).collect();
            for row in 0..n {
                if !table.contains(&ev(e, row)) {
                    return Err(format!("lookup {} at row {row}", l.name));
                }
            }
        }
    }
    for (a, b) in &rec.copies {
        if get(rec, adv, *a) != get(rec, adv, *b) {
            return Err(format!("copy {a:?} {b:?}"));
        }
    }
    for (a, v) in &rec.constants {
        if get(rec, adv, *a) != *v {
            return Err(format!("constant {a:?}"));
        }
    }
    Ok(())
}
