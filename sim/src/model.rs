//! Reference model: the Hartley transform computed directly from its definition
//! (and, for long inputs, through an independent textbook recursive FFT).
use std::collections::HashMap;
use std::f64::consts::PI;
use std::sync::Mutex;

pub fn dht(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n == 0 {
        return vec![];
    }
    if n <= 192 {
        let t = cas_table(n);
        let mut out = vec![0.0; n];
        for k in 0..n {
            let mut s = 0.0;
            let mut idx = 0;
            for &v in x {
                s += v * t[idx];
                idx += k;
                if idx >= n {
                    idx -= n;
                }
            }
            out[k] = s;
        }
        return out;
    }
    let re = x.to_vec();
    let im = vec![0.0; n];
    let (r, i) = fft(&re, &im);
    // X[k] = sum x cos + sum x sin; FFT with e^{-i..}: Re = sum x cos, Im = -sum x sin
    (0..n).map(|k| r[k] - i[k]).collect()
}

fn cas_table(n: usize) -> std::sync::Arc<Vec<f64>> {
    static C: Mutex<Option<HashMap<usize, std::sync::Arc<Vec<f64>>>>> = Mutex::new(None);
    let mut g = C.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    m.entry(n)
        .or_insert_with(|| {
            std::sync::Arc::new(
                (0..n)
                    .map(|i| {
                        let (c, s) = unit(i, n);
                        c + s
                    })
                    .collect(),
            )
        })
        .clone()
}
/// (cos, sin) of 2*pi*i/n with exact octant reduction.
pub fn unit(i: usize, n: usize) -> (f64, f64) {
    let i = i % n;
    // reduce 8*i/n into octants to keep the argument small
    let o = (8 * i) / n;
    let r = (8 * i) as f64 - (o * n) as f64; // remainder in units of 1/(8n) turns
    let a = 2.0 * PI * r / (8.0 * n as f64);
    let (s, c) = a.sin_cos();
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let (c8, s8) = match o {
        0 => (1.0, 0.0),
        1 => (h, h),
        2 => (0.0, 1.0),
        3 => (-h, h),
        4 => (-1.0, 0.0),
        5 => (-h, -h),
        6 => (0.0, -1.0),
        _ => (h, -h),
    };
    (c * c8 - s * s8, s * c8 + c * s8)
}

fn smallest_factor(n: usize) -> usize {
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return d;
        }
        d += 1;
    }
    n
}
/// Textbook decimation-in-time recursion on the smallest prime factor.
fn fft(re: &[f64], im: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let n = re.len();
    if n == 1 {
        return (re.to_vec(), im.to_vec());
    }
    let p = smallest_factor(n);
    let tw: Vec<(f64, f64)> = (0..n).map(|i| unit(i, n)).collect();
    let m = n / p;
    let mut subs = Vec::with_capacity(p);
    for r in 0..p {
        let a: Vec<f64> = (0..m).map(|j| re[j * p + r]).collect();
        let b: Vec<f64> = (0..m).map(|j| im[j * p + r]).collect();
        subs.push(if m == 1 { (a, b) } else { fft(&a, &b) });
    }
    let mut or = vec![0.0; n];
    let mut oi = vec![0.0; n];
    for k in 0..n {
        let (mut sr, mut si) = (0.0, 0.0);
        let mut idx = 0usize;
        for s in subs.iter() {
            let (c, sn) = tw[idx];
            let (a, b) = (s.0[k % m], s.1[k % m]);
            // multiply by e^{-i theta}
            sr += a * c + b * sn;
            si += b * c - a * sn;
            idx += k;
            if idx >= n {
                idx %= n;
            }
        }
        or[k] = sr;
        oi[k] = si;
    }
    (or, oi)
}

/// Largest deviation of `got` from the reference, in units of the tolerance unit
/// eps * (log2(n) + 4) * ||x||_1 (plus an absolute underflow floor).
pub fn error_units(x: &[f64], got: &[f64], eps: f64, floor: f64) -> (f64, usize, f64) {
    let n = x.len();
    if n > 2500 && largest_factor(n) > 500 {
        return sampled_units(x, got, eps, floor);
    }
    let want = dht(x);
    let l1: f64 = x.iter().map(|v| v.abs()).sum();
    let unit = eps * ((n as f64).log2() + 4.0) * l1 + floor * n as f64;
    let mut worst = (0.0, 0, 0.0);
    for k in 0..n {
        let d = (got[k] - want[k]).abs();
        let u = if d.is_nan() { f64::INFINITY } else if unit > 0.0 { d / unit } else if d == 0.0 { 0.0 } else { f64::INFINITY };
        if u > worst.0 {
            worst = (u, k, want[k]);
        }
    }
    worst
}

fn largest_factor(mut n: usize) -> usize {
    let mut best = 1;
    while n > 1 {
        let f = smallest_factor(n);
        best = best.max(f);
        n /= f;
    }
    best
}
/// Lengths for which no fast reference exists: 64 output elements from the definition,
/// and the inverse relation (applying the transform at 8 points to the whole output
/// must give n times the input there), which involves every output element.
fn sampled_units(x: &[f64], got: &[f64], eps: f64, floor: f64) -> (f64, usize, f64) {
    let n = x.len();
    let t = cas_table(n);
    let at = |v: &[f64], k: usize| -> f64 {
        let (mut s, mut idx) = (0.0, 0);
        for &a in v {
            s += a * t[idx];
            idx += k;
            if idx >= n {
                idx -= n;
            }
        }
        s
    };
    let lg = (n as f64).log2() + 4.0;
    let l1: f64 = x.iter().map(|v| v.abs()).sum();
    let unit = eps * lg * l1 + floor * n as f64;
    let rate = |d: f64, unit: f64| if d.is_nan() { f64::INFINITY } else if unit > 0.0 { d / unit } else if d == 0.0 { 0.0 } else { f64::INFINITY };
    let mut worst = (0.0, 0, 0.0);
    let mut r = simrt::Rng::new(n as u64 ^ x[0].to_bits());
    for j in 0..64 {
        let k = match j {
            0 => 0,
            1 => 1,
            2 => n - 1,
            3 => n / 2,
            _ => r.below(n as u64) as usize,
        };
        let want = at(x, k);
        let u = rate((got[k] - want).abs(), unit);
        if u > worst.0 {
            worst = (u, k, want);
        }
    }
    let l1 = got.iter().map(|v| v.abs()).sum::<f64>();
    // every output element may be off by one unit of its own
    let unit = eps * lg * l1 + n as f64 * unit;
    for _ in 0..8 {
        let k = r.below(n as u64) as usize;
        let back = at(got, k);
        let u = rate((back - n as f64 * x[k]).abs(), unit);
        if u > worst.0 {
            worst = (u, k, back);
        }
    }
    worst
}

pub fn self_test() -> Result<(), String> {
    let mut r = simrt::Rng::new(7);
    for n in [193usize, 194, 200, 210, 211, 216, 243, 256, 257, 343, 360, 512, 1000, 1009] {
        let x: Vec<f64> = (0..n).map(|_| r.unit() - 0.5).collect();
        let a = dht(&x);
        for k in (0..n).step_by(7) {
            let mut s = 0.0;
            for (i, v) in x.iter().enumerate() {
                let (c, sn) = unit((i * k) % n, n);
                s += v * (c + sn);
            }
            if (s - a[k]).abs() > 1e-11 * n as f64 {
                return Err(format!("reference model self-test failed: n={} k={} {} {}", n, k, s, a[k]));
            }
        }
    }
    Ok(())
}
