//! Histories of container operations on named image registers.
use crate::samp::*;
use crate::Out;
use imgproc_rs::image::{BaseImage, Image, ImageInfo, PixelIter};
use serde_json::{json, Value};
use std::collections::HashMap;

trait Reg {
    fn run(&mut self, e: &Value) -> Out;
    fn snap(&self) -> Value;
    fn dup(&self) -> Box<dyn Reg>;
    fn any(&self) -> &dyn std::any::Any;
}

struct R<T: Samp> {
    im: Image<T>,
    it: Option<PixelIter<'static, T>>,
}

fn px<T: Samp>(v: &Value) -> Vec<T> {
    v.as_array().unwrap().iter().map(|s| T::mk(s.as_i64().unwrap(), 0)).collect()
}
fn ints<T: Samp>(p: &[T]) -> Value { json!(scale_all(p.iter().map(|v| v.f()), 0).d) }

// The samples in pieces of one, of growing length, with empty pieces in between, or in one piece.
fn pieces<'a, T>(how: &str, d: &'a [T]) -> Vec<&'a [T]> {
    match how.split('_').nth(1).unwrap() {
        "one" => d.chunks(1).collect(),
        "whole" => vec![d],
        k => {
            let (mut out, mut i, mut n) = (Vec::new(), 0, 1);
            while i < d.len() {
                let e = d.len().min(i + n);
                if k == "holes" { out.push(&d[i..i]); }
                out.push(&d[i..e]);
                i = e;
                n = n % 7 + 1;
            }
            out
        }
    }
}

fn make<T: Samp>(e: &Value) -> Box<dyn Reg> {
    let w = e["w"].as_u64().unwrap() as u32;
    let h = e["h"].as_u64().unwrap() as u32;
    let c = e["c"].as_u64().unwrap() as u8;
    let a = e["a"].as_bool().unwrap();
    let d: Vec<T> = px(&e["d"]);
    let im = match e["ctor"].as_str().unwrap() {
        "slice" => Image::from_slice(w, h, c, a, &d),
        "vec" => Image::from_vec(w, h, c, a, d),
        "vecvec" => Image::from_vec_of_vec(w, h, c, a, d.chunks(c as usize).map(|p| p.to_vec()).collect()),
        "vecvec_rows" => Image::from_vec_of_vec(w, h, c, a, d.chunks((c as usize) * (w as usize)).map(|p| p.to_vec()).collect()),
        "vecslice" => Image::from_vec_of_slice(w, h, c, a, d.chunks(c as usize).collect()),
        k if k.starts_with("vecvec_") => Image::from_vec_of_vec(w, h, c, a, pieces(k, &d).into_iter().map(|p| p.to_vec()).collect()),
        k if k.starts_with("vecslice_") => Image::from_vec_of_slice(w, h, c, a, pieces(k, &d)),
        "blank" => Image::blank(ImageInfo::new(w, h, c, a)),
        "empty" => Image::empty(ImageInfo { width: w, height: h, channels: c, alpha: a }),
        k => panic!("script: {}", k),
    };
    Box::new(R { im, it: None })
}

impl<T: Samp> Reg for R<T> {
    fn any(&self) -> &dyn std::any::Any { self }
    fn dup(&self) -> Box<dyn Reg> { Box::new(R { im: self.im.clone(), it: None }) }
    fn snap(&self) -> Value {
        let i = self.im.info();
        json!({"w": i.width, "h": i.height, "c": i.channels, "a": i.alpha, "d": ints(self.im.data())})
    }
    fn run(&mut self, e: &Value) -> Out {
        let x = e["x"].as_u64().unwrap_or(0);
        let y = e["y"].as_u64().unwrap_or(0) as u32;
        let how = e["how"].as_str().unwrap_or("");
        let im = &mut self.im;
        let (xi, xu) = (x as usize, x as u32);
        let o = match e["op"].as_str().unwrap() {
            "get" => match how {
                "xy" => ints(im.get_pixel(xu, y)),
                "xy_un" => ints(im.get_pixel_unchecked(xu, y)),
                "mut" => ints(im.get_pixel_mut(xu, y)),
                "mut_un" => ints(im.get_pixel_mut_unchecked(xu, y)),
                "idx" => ints(&im[xi]),
                "idx_mut" => { let p: &mut [T] = &mut im[xi]; ints(p) }
                "data" => { let c = im.info().channels as usize; ints(&im.data()[xi * c..xi * c + c]) }
                _ => panic!("script"),
            },
            "put" => {
                let p: Vec<T> = px(&e["px"]);
                match how {
                    "xy" => im.set_pixel(xu, y, &p),
                    "mut" => im.get_pixel_mut(xu, y).copy_from_slice(&p),
                    "mut_un" => im.get_pixel_mut_unchecked(xu, y).copy_from_slice(&p),
                    "set_idx" => im.set_pixel_indexed(xi, &p),
                    "idx" => im[xi].copy_from_slice(&p),
                    _ => panic!("script"),
                }
                json!([])
            }
            "poke" => {
                let k = e["k"].as_u64().unwrap() as usize;
                let v = T::mk(e["val"].as_i64().unwrap(), 0);
                match how {
                    "data" => im.data_mut()[xi] = v,
                    "mut" => im.get_pixel_mut(xu, y)[k] = v,
                    "mut_un" => im.get_pixel_mut_unchecked(xu, y)[k] = v,
                    "idx" => im[xi][k] = v,
                    _ => panic!("script"),
                }
                json!([])
            }
            "edit" => {
                let v = T::mk(e["val"].as_i64().unwrap(), 0);
                im.edit_channel(|s| s + v, e["k"].as_u64().unwrap() as usize);
                json!([])
            }
            "iter" => {
                let fixed: &'static Image<T> = Box::leak(Box::new(im.clone()));
                let it = if how == "new" { PixelIter::new(fixed) } else { fixed.into_iter() };
                let (lo, hi) = it.size_hint();
                self.it = Some(it);
                json!({"rem": lo, "remhi": hi.map(|v| v as i64).unwrap_or(-1)})
            }
            "next" | "nth" => {
                let it = self.it.as_mut().unwrap();
                let (lo, hi) = it.size_hint();
                let n = if e["op"] == "nth" { it.nth(e["k"].as_u64().unwrap() as usize) } else { it.next() };
                let (lo2, _) = it.size_hint();
                match n {
                    None => json!({"rem": lo, "remhi": hi.map(|v| v as i64).unwrap_or(-1), "some": false, "x": 0, "y": 0, "px": [], "remafter": lo2}),
                    Some((a, b, p)) => json!({"rem": lo, "remhi": hi.map(|v| v as i64).unwrap_or(-1), "some": true, "x": a, "y": b, "px": ints(p), "remafter": lo2}),
                }
            }
            "tail" => {
                let it = self.it.as_ref().unwrap();
                let many = it.clone().take(im.info().size() as usize + 8).fold(0, |n, _| n + 1) > im.info().size() as usize;
                let last = if many { None } else { it.clone().last() };
                let n = if many { -1 } else { it.clone().count() as i64 };
                match last {
                    None => json!({"count": n, "some": false, "x": 0, "y": 0, "px": []}),
                    Some((a, b, p)) => json!({"count": n, "some": true, "x": a, "y": b, "px": ints(p)}),
                }
            }
            "drain" => {
                let it = self.it.as_ref().unwrap().clone();
                let mut rows: Vec<Value> = Vec::new();
                let cap = im.info().size() as usize + 8;
                let mut step = |a: u32, b: u32, p: &[T]| {
                    let mut r = vec![json!(a), json!(b)];
                    r.extend(scale_all(p.iter().map(|v| v.f()), 0).d.iter().map(|v| json!(v)));
                    rows.push(Value::Array(r));
                };
                if how == "fold" {
                    let mut n = 0;
                    it.for_each(|(a, b, p)| { n += 1; assert!(n <= cap, "runaway"); step(a, b, p) });
                }
                else if how == "collect" { for (a, b, p) in it.collect::<Vec<_>>() { step(a, b, p); } }
                else if how == "skip" {
                    let ahead = it.clone().next();
                    if let Some((a, b, p)) = ahead { step(a, b, p); }
                    for (a, b, p) in it.take(cap).skip(1) { step(a, b, p); }
                }
                else if how == "step" { let mut it = it; while let Some((a, b, p)) = it.nth(0) { if rows.len() > cap { break; } let mut r = vec![json!(a), json!(b)]; r.extend(scale_all(p.iter().map(|v| v.f()), 0).d.iter().map(|v| json!(v))); rows.push(Value::Array(r)); } }
                else { for (a, b, p) in it.take(cap) { step(a, b, p); } }
                json!(rows)
            }
            "index" => json!(im.index(xu, y)),
            "info" => {
                let i = im.info();
                let (aw, ah, ac, aa) = i.whca();
                let t = format!("{}", i);
                let num = |k: &str| -> i64 {
                    t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse().ok()).unwrap_or(-1)
                };
                let da = t.lines().find_map(|l| l.strip_prefix("alpha:")).map(|s| s.trim().to_string()).unwrap_or_default();
                json!({"w": i.width, "h": i.height, "c": i.channels, "a": i.alpha,
                       "wh": [i.wh().0, i.wh().1], "whc": [i.whc().0, i.whc().1, i.whc().2],
                       "whca": [aw, ah, ac], "whca_a": aa, "nc": i.channels_non_alpha(),
                       "size": i.size(), "full": i.full_size(),
                       "disp": [num("width:"), num("height:"), num("channels:")], "disp_a": da == "true"})
            }
            k => panic!("script: {}", k),
        };
        Out::Ok(o)
    }
}

pub struct Sessions { regs: HashMap<String, Box<dyn Reg>> }

impl Sessions {
    pub fn new() -> Self { Sessions { regs: HashMap::new() } }
    fn name(e: &Value) -> String { e["reg"].as_str().unwrap().to_string() }

    pub fn run(&mut self, e: &Value) -> Out {
        match e["op"].as_str().unwrap() {
            "reset" => { self.regs.clear(); Out::Ok(json!([])) }
            "new" => {
                let r = match e["ty"].as_str().unwrap_or("u8") {
                    "u8" => make::<u8>(e),
                    "u16" => make::<u16>(e),
                    "u32" => make::<u32>(e),
                    "i16" => make::<i16>(e),
                    "i32" => make::<i32>(e),
                    "f32" => make::<f32>(e),
                    "f64" => make::<f64>(e),
                    k => panic!("script: {}", k),
                };
                self.regs.insert(Self::name(e), r);
                Out::Ok(json!([]))
            }
            "clone" => {
                let r = self.regs[e["from"].as_str().unwrap()].dup();
                self.regs.insert(Self::name(e), r);
                Out::Ok(json!([]))
            }
            "eq" => {
                let a = self.regs[&Self::name(e)].any();
                let b = self.regs[e["from"].as_str().unwrap()].any();
                macro_rules! cmp { ($($t:ty),*) => { $(
                    if let (Some(p), Some(q)) = (a.downcast_ref::<R<$t>>(), b.downcast_ref::<R<$t>>()) {
                        return Out::Ok(json!(p.im == q.im));
                    }
                )* } }
                cmp!(u8, u16, u32, i16, i32, f32, f64);
                panic!("script: eq types");
            }
            _ => self.regs.get_mut(&Self::name(e)).unwrap().run(e),
        }
    }

    pub fn snapshot(&self, e: &Value) -> Value {
        match e["reg"].as_str().and_then(|n| self.regs.get(n)) {
            Some(r) => r.snap(),
            None => json!({"w": 0, "h": 0, "c": 0, "a": false, "d": []}),
        }
    }
}
