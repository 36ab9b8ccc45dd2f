//! Conversion between script samples (integers at a binary scale) and channel types.
use imgproc_rs::image::{BaseImage, Image, Number};
use serde_json::{json, Value};

pub trait Samp: Number + 'static {
    fn mk(v: i64, q: u32) -> Self;
    fn f(self) -> f64;
    fn text(self) -> String;
}

macro_rules! int_samp { ($($t:ty),*) => { $(impl Samp for $t {
    fn mk(v: i64, _q: u32) -> Self { v as $t }
    fn f(self) -> f64 { self as f64 }
    fn text(self) -> String { self.to_string() }
})* } }
macro_rules! float_samp { ($($t:ty),*) => { $(impl Samp for $t {
    fn mk(v: i64, q: u32) -> Self { (v as f64 / 2f64.powi(q as i32)) as $t }
    fn f(self) -> f64 { self as f64 }
    fn text(self) -> String {
        let v = self as f64;
        if v.is_finite() && v == v.trunc() && v.abs() < 1e38 { format!("{:.0}", v) } else { format!("{:?}", v) }
    }
})* } }
int_samp!(u8, u16, u32, u64, u128, usize, i16, i32, i64);
float_samp!(f32, f64);

pub struct Scaled { pub d: Vec<i64>, pub x: bool, pub n: u64 }

pub fn scale_all<I: Iterator<Item = f64>>(vals: I, q: u32) -> Scaled {
    let s = 2f64.powi(q as i32);
    let mut r = Scaled { d: Vec::new(), x: true, n: 0 };
    for v in vals {
        let w = v * s;
        if !w.is_finite() || w.abs() > 1.0e9 {
            r.n += 1;
            r.x = false;
            r.d.push(0);
            continue;
        }
        // Round half up, so that the direction does not depend on parity.
        let z = (w + 0.5).floor();
        if z != w { r.x = false; }
        r.d.push(z as i64);
    }
    r
}

pub fn img_in<T: Samp>(v: &Value) -> Image<T> {
    let w = v["w"].as_u64().unwrap() as u32;
    let h = v["h"].as_u64().unwrap() as u32;
    let c = v["c"].as_u64().unwrap() as u8;
    let a = v["a"].as_bool().unwrap();
    let q = v["q"].as_u64().unwrap_or(0) as u32;
    let src = v["d"].as_array().unwrap();
    let mut d: Vec<T> = Vec::with_capacity(src.len());
    for s in src { d.push(T::mk(s.as_i64().unwrap(), q)); }
    Image::from_vec(w, h, c, a, d)
}

pub fn img_out<T: Samp>(im: &Image<T>, q: u32) -> Value {
    let i = im.info();
    let s = scale_all(im.data().iter().map(|v| v.f()), q);
    json!({"w": i.width, "h": i.height, "c": i.channels, "a": i.alpha, "q": q, "d": s.d, "x": s.x, "n": s.n})
}

pub fn vec_out(v: &[f32], q: u32) -> Value {
    let s = scale_all(v.iter().map(|v| *v as f64), q);
    json!({"q": q, "d": s.d, "x": s.x, "n": s.n})
}
