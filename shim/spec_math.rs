//! Stand-in for the two `spec_math` functions the crate under test uses:
//! K0 and K1 (plus I0 and I1), to ~1e-15, from their series and from the
//! trapezoidal rule on  K_n(x) = int_0^inf exp(-x cosh t) cosh(nt) dt.
const EULER: f64 = 0.577_215_664_901_532_9;

fn i_series(n: u32, x: f64) -> f64 {
    let q = 0.25 * x * x;
    let mut term = if n == 0 { 1.0 } else { 0.5 * x };
    let mut sum = term;
    let mut k = 1.0;
    loop {
        term *= q / (k * (k + f64::from(n)));
        sum += term;
        if term.abs() <= 1e-18 * sum.abs() || k > 2000.0 {
            return sum;
        }
        k += 1.0;
    }
}

fn k_series(n: u32, x: f64) -> f64 {
    let q = 0.25 * x * x;
    let l = (0.5 * x).ln();
    if n == 0 {
        let mut sum = -(l + EULER) * i_series(0, x);
        let mut term = 1.0;
        let mut h = 0.0;
        for k in 1..60 {
            let kf = f64::from(k);
            term *= q / (kf * kf);
            h += 1.0 / kf;
            sum += h * term;
        }
        sum
    } else {
        // K1 = 1/x + ln(x/2) I1 - x/4 sum_k [psi(k+1)+psi(k+2)] q^k/(k!(k+1)!)
        let mut sum = 0.0;
        let mut term = 1.0;
        let mut h = 0.0; // H_k
        for k in 0..60 {
            let kf = f64::from(k);
            if k > 0 {
                term *= q / (kf * (kf + 1.0));
                h += 1.0 / kf;
            }
            sum += (2.0 * (h - EULER) + 1.0 / (kf + 1.0)) * term;
        }
        1.0 / x + l * i_series(1, x) - 0.25 * x * sum
    }
}

/// exp(x) K_n(x) by the trapezoidal rule (geometric convergence).
fn k_scaled(n: u32, x: f64) -> f64 {
    // The integrand narrows as 1/sqrt(x): keep several points per width.
    let h = (1.0 / 32.0_f64).min(0.2 / x.sqrt());
    let mut sum = 0.5;
    let mut k = 1;
    loop {
        let t = h * f64::from(k);
        let s = (0.5 * t).sinh();
        let term = (-2.0 * x * s * s).exp() * if n == 0 { 1.0 } else { t.cosh() };
        sum += term;
        if term < 1e-18 * sum {
            return h * sum;
        }
        k += 1;
    }
}

fn k(n: u32, x: f64) -> f64 {
    if x.is_nan() || x < 0.0 {
        return f64::NAN;
    }
    if x == 0.0 {
        return f64::INFINITY;
    }
    if x < 1.0 {
        return k_series(n, x);
    }
    if x > 750.0 {
        return 0.0;
    }
    // exp in two halves keeps the subnormal tail meaningful.
    let e = (-0.5 * x).exp();
    k_scaled(n, x) * e * e
}

pub trait Bessel {
    fn bessel_k0(&self) -> f64;
    fn bessel_k1(&self) -> f64;
    fn bessel_i0(&self) -> f64;
    fn bessel_i1(&self) -> f64;
}
impl Bessel for f64 {
    fn bessel_k0(&self) -> f64 {
        k(0, *self)
    }
    fn bessel_k1(&self) -> f64 {
        k(1, *self)
    }
    fn bessel_i0(&self) -> f64 {
        i_series(0, self.abs())
    }
    fn bessel_i1(&self) -> f64 {
        self.signum() * i_series(1, self.abs())
    }
}
