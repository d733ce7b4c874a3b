//! Reference arithmetic in GF(2^w), written independently of the implementation under test.
//! The only thing taken from the implementation is which irreducible polynomial it works with.

use scalable_mpc::math::galois::GF;
use std::collections::HashMap;

#[derive(Clone)]
pub struct RefField {
    pub w: u32,
    pub order: u32,
    pub modulus: u64,
    log: Vec<u32>,
    exp: Vec<u32>,
}

pub fn clmul(a: u32, b: u32) -> u64 {
    let mut r = 0u64;
    let mut b = b as u64;
    let mut a = a as u64;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        b >>= 1;
    }
    r
}

pub fn reduce(mut v: u64, modulus: u64, w: u32) -> u32 {
    let mut top = 63 - v.max(1).leading_zeros();
    while top >= w && v >> w != 0 {
        if v >> top & 1 == 1 {
            v ^= modulus << (top - w);
        }
        if top == 0 {
            break;
        }
        top -= 1;
    }
    v as u32
}

fn poly_gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        let db = 63 - b.leading_zeros();
        while a != 0 && 63 - a.leading_zeros() >= db {
            a ^= b << (63 - a.leading_zeros() - db);
        }
        std::mem::swap(&mut a, &mut b);
    }
    a
}

pub fn irreducible(modulus: u64, w: u32) -> bool {
    if w == 1 {
        return modulus == 2 || modulus == 3;
    }
    if modulus >> w != 1 {
        return false;
    }
    let frob = |k: u32| -> u32 {
        let mut v = 2u32;
        for _ in 0..k {
            v = reduce(clmul(v, v), modulus, w);
        }
        v
    };
    if frob(w) != 2 {
        return false;
    }
    let mut m = w;
    let mut p = 2;
    while m > 1 {
        if m % p == 0 {
            let g = poly_gcd(modulus, (frob(w / p) ^ 2) as u64);
            if g != 1 {
                return false;
            }
            while m % p == 0 {
                m /= p;
            }
        }
        p += 1;
    }
    true
}

fn prime_factors(mut m: u32) -> Vec<u32> {
    let mut res = Vec::new();
    let mut p = 2;
    while p * p <= m {
        if m % p == 0 {
            res.push(p);
            while m % p == 0 {
                m /= p;
            }
        }
        p += 1;
    }
    if m > 1 {
        res.push(m);
    }
    res
}

impl RefField {
    /// Finds out which modulus the implementation uses for width W and checks it is irreducible.
    pub fn discover<const W: u8>() -> Result<RefField, String> {
        let w = W as u32;
        GF::<W>::init().map_err(|e| format!("width {}: init failed: {}", W, e))?;
        let modulus = if w == 1 {
            3
        } else {
            let a = GF::<W>::from(1u32 << (w - 1));
            let x = GF::<W>::from(2u32);
            let p: u32 = (a * x).into();
            (1u64 << w) ^ p as u64
        };
        if !irreducible(modulus, w) {
            return Err(format!(
                "width {}: product of x^{} and x is not a reduction modulo an irreducible polynomial ({:#x})",
                W, w - 1, modulus
            ));
        }
        Ok(Self::from_modulus(w, modulus))
    }

    pub fn from_modulus(w: u32, modulus: u64) -> RefField {
        let order = 1u32 << w;
        let mut f = RefField {
            w,
            order,
            modulus,
            log: Vec::new(),
            exp: Vec::new(),
        };
        if w > 18 {
            return f;
        }
        // Log tables over a generator found by search.
        let group = order - 1;
        if group == 1 {
            f.exp = vec![1; 2];
            f.log = vec![0; 2];
            return f;
        }
        let fac = prime_factors(group);
        let g = (2..order)
            .find(|&g| fac.iter().all(|&p| f.pow(g, group / p) != 1))
            .unwrap();
        let mut exp = vec![0u32; 2 * group as usize];
        let mut log = vec![0u32; order as usize];
        let mut v = 1u32;
        for i in 0..group {
            exp[i as usize] = v;
            exp[(i + group) as usize] = v;
            log[v as usize] = i;
            v = reduce(clmul(v, g), modulus, w);
        }
        assert_eq!(v, 1);
        f.exp = exp;
        f.log = log;
        f
    }

    pub fn mul_slow(&self, a: u32, b: u32) -> u32 {
        if self.w == 1 {
            return a & b;
        }
        reduce(clmul(a, b), self.modulus, self.w)
    }

    pub fn pow(&self, mut b: u32, mut e: u32) -> u32 {
        let mut r = 1;
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul_slow(r, b);
            }
            b = self.mul_slow(b, b);
            e >>= 1;
        }
        r
    }

    #[inline]
    pub fn mul(&self, a: u32, b: u32) -> u32 {
        if a == 0 || b == 0 {
            return 0;
        }
        if self.log.is_empty() {
            return self.mul_slow(a, b);
        }
        self.exp[(self.log[a as usize] + self.log[b as usize]) as usize]
    }

    pub fn inv(&self, a: u32) -> u32 {
        assert!(a != 0);
        if self.log.is_empty() {
            return self.pow(a, self.order - 2);
        }
        if self.order == 2 {
            return 1;
        }
        let g = self.order - 1;
        self.exp[((g - self.log[a as usize]) % g) as usize]
    }

    pub fn div(&self, a: u32, b: u32) -> u32 {
        self.mul(a, self.inv(b))
    }

    pub fn dot(&self, a: &[u32], b: &[u32]) -> u32 {
        a.iter()
            .zip(b)
            .fold(0, |acc, (&x, &y)| acc ^ self.mul(x, y))
    }

    /// Row of Lagrange weights: value at `at` of the polynomial through points `xs`.
    pub fn weights(&self, xs: &[u32], at: u32) -> Vec<u32> {
        if let Some(i) = xs.iter().position(|&x| x == at) {
            let mut row = vec![0; xs.len()];
            row[i] = 1;
            return row;
        }
        xs.iter()
            .enumerate()
            .map(|(i, &xi)| {
                let mut num = 1;
                let mut den = 1;
                for (j, &xj) in xs.iter().enumerate() {
                    if i != j {
                        num = self.mul(num, at ^ xj);
                        den = self.mul(den, xi ^ xj);
                    }
                }
                self.div(num, den)
            })
            .collect()
    }

    pub fn weight_matrix(&self, xs: &[u32], ats: &[u32]) -> Vec<Vec<u32>> {
        ats.iter().map(|&a| self.weights(xs, a)).collect()
    }

    pub fn poly_eval(&self, coeffs: &[u32], x: u32) -> u32 {
        coeffs.iter().rev().fold(0, |acc, &c| self.mul(acc, x) ^ c)
    }

    pub fn mat_vec(&self, m: &[Vec<u32>], v: &[u32]) -> Vec<u32> {
        m.iter().map(|r| self.dot(r, v)).collect()
    }

    pub fn rank(&self, m: &[Vec<u32>]) -> usize {
        let mut m: Vec<Vec<u32>> = m.to_vec();
        self.eliminate(&mut m)
    }

    /// In-place row echelon form, returns the rank.
    pub fn eliminate(&self, m: &mut [Vec<u32>]) -> usize {
        if m.is_empty() {
            return 0;
        }
        let cols = m[0].len();
        let rows = m.len();
        let mut r = 0;
        for c in 0..cols {
            let Some(p) = (r..rows).find(|&i| m[i][c] != 0) else {
                continue;
            };
            m.swap(r, p);
            let inv = self.inv(m[r][c]);
            for x in m[r][c..].iter_mut() {
                *x = self.mul(*x, inv);
            }
            let pivot = m[r].clone();
            for (i, row) in m.iter_mut().enumerate() {
                if i != r && row[c] != 0 {
                    let k = row[c];
                    for j in c..cols {
                        row[j] ^= self.mul(k, pivot[j]);
                    }
                }
            }
            r += 1;
            if r == rows {
                break;
            }
        }
        r
    }

    /// Solves A x = b. Err(true): inconsistent, Err(false): not unique.
    pub fn solve(&self, a: &[Vec<u32>], b: &[u32]) -> Result<Vec<u32>, bool> {
        let cols = a[0].len();
        let mut m: Vec<Vec<u32>> = a
            .iter()
            .zip(b)
            .map(|(r, &v)| {
                let mut r = r.clone();
                r.push(v);
                r
            })
            .collect();
        let rank = self.eliminate(&mut m);
        // Inconsistent iff some pivot sits in the last column.
        for row in m[..rank].iter() {
            if row[..cols].iter().all(|&x| x == 0) {
                return Err(true);
            }
        }
        if rank < cols {
            return Err(false);
        }
        Ok((0..cols).map(|i| m[i][cols]).collect())
    }
}

/// Rank over GF(2) of rows given as bit vectors.
pub fn rank_gf2(rows: &[Vec<u64>], cols: usize) -> usize {
    let mut m: Vec<Vec<u64>> = rows.to_vec();
    let mut r = 0;
    for c in 0..cols {
        let (w, b) = (c / 64, c % 64);
        let Some(p) = (r..m.len()).find(|&i| m[i][w] >> b & 1 == 1) else {
            continue;
        };
        m.swap(r, p);
        let pivot = m[r].clone();
        for (i, row) in m.iter_mut().enumerate() {
            if i != r && row[w] >> b & 1 == 1 {
                for (x, y) in row.iter_mut().zip(&pivot) {
                    *x ^= y;
                }
            }
        }
        r += 1;
        if r == m.len() {
            break;
        }
    }
    r
}

/// Sharing reference: knows positions only, deals and inspects sharings with its own arithmetic.
pub struct RefSharing {
    pub f: std::rc::Rc<RefField>,
    pub n: usize,
    pub sp: Vec<u32>,
    cache: std::cell::RefCell<HashMap<(usize, Vec<u32>, bool), std::rc::Rc<Vec<Vec<u32>>>>>,
}

impl RefSharing {
    pub fn new(f: std::rc::Rc<RefField>, sp: Vec<u32>) -> Self {
        Self {
            f,
            n: sp.len(),
            sp,
            cache: Default::default(),
        }
    }

    fn cached(
        &self,
        deg: usize,
        pos: &[u32],
        deal: bool,
        mk: impl FnOnce() -> Vec<Vec<u32>>,
    ) -> std::rc::Rc<Vec<Vec<u32>>> {
        let key = (deg, pos.to_vec(), deal);
        if let Some(m) = self.cache.borrow().get(&key) {
            return m.clone();
        }
        let m = std::rc::Rc::new(mk());
        self.cache.borrow_mut().insert(key, m.clone());
        m
    }

    /// Deals `secrets` at `pos` with a uniformly random polynomial of degree at most `deg`.
    pub fn deal<R: rand::Rng>(
        &self,
        rng: &mut R,
        deg: usize,
        pos: &[u32],
        secrets: &[u32],
    ) -> Vec<u32> {
        assert_eq!(pos.len(), secrets.len());
        assert!(pos.len() <= deg + 1 && deg < self.n);
        let m = self.cached(deg, pos, true, || {
            let xs: Vec<u32> = pos
                .iter()
                .chain(self.sp.iter())
                .cloned()
                .take(deg + 1)
                .collect();
            self.f.weight_matrix(&xs, &self.sp)
        });
        let vals: Vec<u32> = secrets
            .iter()
            .cloned()
            .chain((pos.len()..(deg + 1)).map(|_| rng.gen_range(0..self.f.order)))
            .collect();
        self.f.mat_vec(&m, &vals)
    }

    /// Are the shares evaluations of a polynomial of degree at most `deg`?
    pub fn on_degree(&self, shares: &[u32], deg: usize) -> bool {
        if shares.len() != self.n {
            return false;
        }
        if deg + 1 >= self.n {
            return true;
        }
        let m = self.cached(deg, &[], false, || {
            self.f
                .weight_matrix(&self.sp[..deg + 1], &self.sp[deg + 1..])
        });
        self.f.mat_vec(&m, &shares[..deg + 1]) == shares[deg + 1..]
    }

    /// Values at `pos` of the polynomial of degree at most `deg` through the first shares.
    pub fn at(&self, shares: &[u32], deg: usize, pos: &[u32]) -> Vec<u32> {
        let m = self.cached(deg, pos, false, || {
            self.f.weight_matrix(&self.sp[..deg + 1], pos)
        });
        self.f.mat_vec(&m, &shares[..deg + 1])
    }

    /// Exact degree of the polynomial through all n shares (0 for the zero polynomial too).
    pub fn exact_degree(&self, shares: &[u32]) -> usize {
        (0..self.n).find(|&d| self.on_degree(shares, d)).unwrap()
    }
}
