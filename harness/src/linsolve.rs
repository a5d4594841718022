//! Linear systems over a prime field (used to build concrete counterexamples).
use crate::poly::*;
use crate::sym::*;
use std::collections::HashMap;

/// Find values for `unk` making every polynomial zero; other variables are numeric through `val`.
/// Free unknowns get `free`.  None when unsolvable or not linear.
pub fn solve<F: SymBase>(polys: &[Poly<F>], unk: &[u32], val: &dyn Fn(u32) -> F, free: &mut dyn FnMut() -> F) -> Option<HashMap<u32, F>> {
    let pos: HashMap<u32, usize> = unk.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let n = unk.len();
    let mut rows: Vec<Vec<F>> = vec![];
    for p in polys {
        let mut row = vec![F::zero(); n + 1];
        for (m, c) in &p.t {
            let mut k = *c;
            let mut u = None;
            for &(v, e) in m.iter() {
                if let Some(i) = pos.get(&v) {
                    if u.is_some() || e != 1 {
                        return None;
                    }
                    u = Some(*i);
                } else {
                    let x = val(v);
                    let x = if e < 0 { x.inverse()? } else { x };
                    for _ in 0..e.abs() {
                        k *= x;
                    }
                }
            }
            row[u.unwrap_or(n)] += k;
        }
        rows.push(row);
    }
    let mut piv: Vec<Option<usize>> = vec![None; n];
    let mut r0 = 0;
    for c in 0..n {
        let Some(r) = (r0..rows.len()).find(|r| !rows[*r][c].is_zero()) else { continue };
        rows.swap(r0, r);
        let inv = rows[r0][c].inverse().unwrap();
        for x in rows[r0].iter_mut() {
            *x *= inv;
        }
        for r in 0..rows.len() {
            if r != r0 && !rows[r][c].is_zero() {
                let k = rows[r][c];
                for j in 0..=n {
                    let t = rows[r0][j] * k;
                    rows[r][j] -= t;
                }
            }
        }
        piv[c] = Some(r0);
        r0 += 1;
    }
    if rows[r0..].iter().any(|r| !r[n].is_zero()) {
        return None;
    }
    let mut sol = vec![F::zero(); n];
    for c in 0..n {
        if piv[c].is_none() {
            sol[c] = free();
        }
    }
    for c in 0..n {
        if let Some(r) = piv[c] {
            let mut s = -rows[r][n];
            for d in 0..n {
                if piv[d].is_none() {
                    s -= rows[r][d] * sol[d];
                }
            }
            sol[c] = s;
        }
    }
    Some(unk.iter().copied().zip(sol).collect())
}
