//! Exact decimals of any size, written independently of the library under test.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Debug)]
pub struct Dec {
    neg: bool,
    mag: Vec<u32>, // little endian, no leading (most significant) zeros
    scale: u32,
}

fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn mul_small(v: &mut Vec<u32>, m: u32) {
    let mut carry = 0u64;
    for d in v.iter_mut() {
        let x = *d as u64 * m as u64 + carry;
        *d = x as u32;
        carry = x >> 32;
    }
    if carry > 0 {
        v.push(carry as u32);
    }
    trim(v);
}
fn add_small(v: &mut Vec<u32>, a: u32) {
    let mut carry = a as u64;
    for d in v.iter_mut() {
        if carry == 0 {
            break;
        }
        let x = *d as u64 + carry;
        *d = x as u32;
        carry = x >> 32;
    }
    if carry > 0 {
        v.push(carry as u32);
    }
}
fn divmod_small(v: &[u32], m: u32) -> (Vec<u32>, u32) {
    let mut out = vec![0u32; v.len()];
    let mut rem = 0u64;
    for i in (0..v.len()).rev() {
        let x = (rem << 32) | v[i] as u64;
        out[i] = (x / m as u64) as u32;
        rem = x % m as u64;
    }
    trim(&mut out);
    (out, rem as u32)
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![];
    let mut carry = 0u64;
    for i in 0..a.len().max(b.len()) {
        let x = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + carry;
        out.push(x as u32);
        carry = x >> 32;
    }
    if carry > 0 {
        out.push(carry as u32);
    }
    out
}
/// a >= b
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![];
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut x = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - borrow;
        borrow = 0;
        if x < 0 {
            x += 1 << 32;
            borrow = 1;
        }
        out.push(x as u32);
    }
    trim(&mut out);
    out
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![0u32; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut carry = 0u64;
        for j in 0..b.len() {
            let x = a[i] as u64 * b[j] as u64 + out[i + j] as u64 + carry;
            out[i + j] = x as u32;
            carry = x >> 32;
        }
        let mut k = i + b.len();
        while carry > 0 {
            let x = out[k] as u64 + carry;
            out[k] = x as u32;
            carry = x >> 32;
            k += 1;
        }
    }
    trim(&mut out);
    out
}

impl Dec {
    pub fn zero() -> Dec {
        Dec { neg: false, mag: vec![], scale: 0 }
    }
    pub fn new(m: i128, scale: u32) -> Dec {
        let mut u = m.unsigned_abs();
        let mut mag = vec![];
        while u > 0 {
            mag.push(u as u32);
            u >>= 32;
        }
        Dec { neg: m < 0, mag, scale }
    }
    /// [-]digits[.digits], at least one digit.
    pub fn parse(s: &str) -> Option<Dec> {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        let mut d = Dec::zero();
        let mut seen_dot = false;
        let mut any = false;
        for c in t.chars() {
            if c == '.' && !seen_dot {
                seen_dot = true;
            } else if c.is_ascii_digit() {
                any = true;
                mul_small(&mut d.mag, 10);
                add_small(&mut d.mag, c as u32 - '0' as u32);
                if seen_dot {
                    d.scale += 1;
                }
            } else {
                return None;
            }
        }
        if !any {
            return None;
        }
        d.neg = neg && !d.mag.is_empty();
        Some(d)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_neg(&self) -> bool {
        self.neg && !self.is_zero()
    }
    pub fn scale(&self) -> u32 {
        self.scale
    }
    fn at_scale(&self, scale: u32) -> Vec<u32> {
        let mut m = self.mag.clone();
        for _ in self.scale..scale {
            mul_small(&mut m, 10);
        }
        m
    }
    pub fn rescaled(&self, scale: u32) -> Dec {
        assert!(scale >= self.scale);
        Dec { neg: self.neg, mag: self.at_scale(scale), scale }
    }
    pub fn neg(&self) -> Dec {
        Dec { neg: !self.neg && !self.mag.is_empty(), mag: self.mag.clone(), scale: self.scale }
    }
    pub fn abs(&self) -> Dec {
        Dec { neg: false, mag: self.mag.clone(), scale: self.scale }
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let scale = self.scale.max(o.scale);
        let (a, b) = (self.at_scale(scale), o.at_scale(scale));
        let (neg, mag) = if self.neg == o.neg {
            (self.neg, add_mag(&a, &b))
        } else {
            match cmp_mag(&a, &b) {
                Ordering::Less => (o.neg, sub_mag(&b, &a)),
                _ => (self.neg, sub_mag(&a, &b)),
            }
        };
        Dec { neg: neg && !mag.is_empty(), mag, scale }
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Dec) -> Dec {
        let mag = mul_mag(&self.mag, &o.mag);
        Dec { neg: (self.neg != o.neg) && !mag.is_empty(), mag, scale: self.scale + o.scale }
    }
    /// Without trailing zeros in the fraction.
    pub fn norm(&self) -> Dec {
        let mut d = self.clone();
        if d.mag.is_empty() {
            return Dec::zero();
        }
        while d.scale > 0 {
            let (q, r) = divmod_small(&d.mag, 10);
            if r != 0 {
                break;
            }
            d.mag = q;
            d.scale -= 1;
        }
        d
    }
    /// Does the value, as it is scaled, fit the library's 96-bit decimal?
    pub fn fits(&self) -> bool {
        self.scale <= 28 && self.mag.len() <= 3
    }
    pub fn digits(&self) -> usize {
        let mut m = self.mag.clone();
        let mut n = 0;
        while !m.is_empty() {
            m = divmod_small(&m, 10).0;
            n += 1;
        }
        n
    }
    /// Is `self` equal to c / a, up to the precision of a 28 digit decimal?
    pub fn is_quotient(&self, c: &Dec, a: &Dec) -> bool {
        // |r*a - c| <= |a| * (|r| * 1e-20 + 1e-22)
        let diff = self.mul(a).sub(c).abs();
        let tol = self.abs().mul(&Dec::new(1, 20)).add(&Dec::new(1, 22)).mul(&a.abs());
        diff <= tol
    }
    pub fn near(&self, o: &Dec, tol: &Dec) -> bool {
        self.sub(o).abs() <= *tol
    }
}
impl PartialEq for Dec {
    fn eq(&self, o: &Dec) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Dec {}
impl PartialOrd for Dec {
    fn partial_cmp(&self, o: &Dec) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Dec {
    fn cmp(&self, o: &Dec) -> Ordering {
        match (self.is_neg(), o.is_neg()) {
            (true, false) => return Ordering::Less,
            (false, true) => return Ordering::Greater,
            _ => (),
        }
        let s = self.scale.max(o.scale);
        let c = cmp_mag(&self.at_scale(s), &o.at_scale(s));
        if self.is_neg() {
            c.reverse()
        } else {
            c
        }
    }
}
impl fmt::Display for Dec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut digits = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divmod_small(&m, 10);
            digits.push((b'0' + r as u8) as char);
            m = q;
        }
        while digits.len() <= self.scale as usize {
            digits.push('0');
        }
        let mut s: String = digits.into_iter().rev().collect();
        if self.scale > 0 {
            let at = s.len() - self.scale as usize;
            s.insert(at, '.');
        }
        if self.is_neg() {
            s.insert(0, '-');
        }
        f.write_str(&s)
    }
}

/// Checks of the decimals themselves, run before every campaign.
pub fn self_test() {
    let d = |s: &str| Dec::parse(s).unwrap();
    let pairs: [(i128, u32); 9] =
        [(0, 0), (1, 0), (-1, 0), (105, 2), (-99999999999, 4), (7, 9), (i64::MAX as i128, 5), (-12345, 3), (10000000000, 10)];
    for (a, sa) in pairs {
        for (b, sb) in pairs {
            let (x, y) = (Dec::new(a, sa), Dec::new(b, sb));
            let s = sa.max(sb);
            let (ea, eb) = (a * 10i128.pow(s - sa), b * 10i128.pow(s - sb));
            assert_eq!(x.add(&y), Dec::new(ea + eb, s));
            assert_eq!(x.sub(&y), Dec::new(ea - eb, s));
            assert_eq!(x.mul(&y), Dec::new(a * b, sa + sb));
            assert_eq!(x.cmp(&y), ea.cmp(&eb));
            assert_eq!(d(&x.to_string()), x);
        }
    }
    assert_eq!(d("1.50"), d("1.5"));
    assert_eq!(d("-0.05").to_string(), "-0.05");
    assert_eq!(d("0.3333333333333333333333333333").is_quotient(&d("1"), &d("3")), true);
    assert_eq!(d("0.333333333").is_quotient(&d("1"), &d("3")), false);
    assert_eq!(d("79228162514264337593543950335").fits(), true);
    assert_eq!(d("79228162514264337593543950336").fits(), false);
}
