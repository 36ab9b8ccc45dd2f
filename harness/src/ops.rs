//! The pure operations.
use crate::samp::*;
use crate::{guard, proc_kind, Out};
use imgproc_rs::enums::*;
use imgproc_rs::error::ImgProcResult;
use imgproc_rs::image::{BaseImage, Image, Number, Pixel, SubImage};
use imgproc_rs::{colorspace as cs, convert, filter, morphology as morph, tone, transform as tf, util};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

pub struct P<'a>(pub &'a Value);
impl P<'_> {
    fn i(&self, k: &str) -> i64 { self.0[k].as_i64().unwrap_or_else(|| panic!("script: missing {}", k)) }
    fn u(&self, k: &str) -> u32 { self.0[k].as_u64().unwrap_or_else(|| panic!("script: missing {}", k)) as u32 }
    fn b(&self, k: &str) -> bool { self.0[k].as_bool().unwrap_or_else(|| panic!("script: missing {}", k)) }
    fn s(&self, k: &str) -> &str { self.0[k].as_str().unwrap_or_else(|| panic!("script: missing {}", k)) }
    /// A float given as k / 2^kq.
    fn f(&self, k: &str) -> f32 {
        let q = self.0[format!("{}q", k).as_str()].as_i64().unwrap_or(0);
        f32::mk(self.i(k), q as u32)
    }
    fn fs(&self, k: &str) -> Vec<f32> {
        let q = self.0[format!("{}q", k).as_str()].as_i64().unwrap_or(0);
        self.0[k].as_array().unwrap().iter().map(|v| f32::mk(v.as_i64().unwrap(), q as u32)).collect()
    }
    fn white(&self) -> White { if self.s("white") == "D50" { White::D50 } else { White::D65 } }
}

fn fin<T: Samp>(r: ImgProcResult<Image<T>>, q: u32) -> Out {
    match r { Ok(im) => Out::Ok(img_out(&im, q)), Err(e) => Out::Err(proc_kind(&e)) }
}
fn ok<T: Samp>(im: Image<T>, q: u32) -> Out { Out::Ok(img_out(&im, q)) }
fn finv(r: ImgProcResult<Vec<f32>>, q: u32) -> Out {
    match r { Ok(v) => Out::Ok(vec_out(&v, q)), Err(e) => Out::Err(proc_kind(&e)) }
}
fn num(v: f32, q: u32) -> Out { Out::Ok(vec_out(&[v], q)) }

fn sub_out<T: Samp>(s: &SubImage<T>) -> Value {
    let i = s.info();
    let one = |v: &[T]| scale_all(v.iter().map(|v| v.f()), 0).d;
    let mut xy: Vec<i64> = vec![];
    let mut ix: Vec<i64> = vec![];
    for y in 0..i.height { for x in 0..i.width {
        xy.extend(one(s.get_pixel(x, y)));
        let k = (y * i.width + x) as usize;
        let p = one(&s[k]);
        if p != one(s.data()[k]) { panic!("data() and [] disagree"); }
        ix.extend(p);
    } }
    let mut oob = true;
    for (x, y) in [(i.width, 0), (0, i.height)] {
        oob &= std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { s.get_pixel(x, y).len() })).is_err();
    }
    json!({"w": i.width, "h": i.height, "c": i.channels, "a": i.alpha, "d": one(&s.to_vec()), "xy": xy, "ix": ix, "oob": oob})
}

/// Functions used by the map/apply family: samples are small integers.
fn lf<T: Samp>(v: T) -> T { T::mk(2 * (v.f() as i64) + 1, 0) }
fn lg<T: Samp>(v: T) -> T { T::mk(3 * (v.f() as i64) + 2, 0) }

fn map_family<T: Samp>(p: &P, im: &mut Image<T>) -> Out {
    let fl: RefCell<Vec<Value>> = RefCell::new(vec![]);
    let gl: RefCell<Vec<i64>> = RefCell::new(vec![]);
    let pv = |v: &[T]| json!(scale_all(v.iter().map(|v| v.f()), 0).d);
    let fs = |v: T| { fl.borrow_mut().push(json!([v.f() as i64])); lf(v) };
    let g = |v: T| { gl.borrow_mut().push(v.f() as i64); lg(v) };
    // pixel functions: reverse the channels, transform each, and emit `extra` more (or fewer) channels
    let extra = p.0["extra"].as_i64().unwrap_or(0);
    let fp = |v: &[T], o: &mut Vec<T>| {
        fl.borrow_mut().push(pv(v));
        let n = (v.len() as i64 + extra).max(0) as usize;
        for k in 0..n { o.push(lf(v[v.len() - 1 - (k % v.len())])); }
    };
    let res: Image<T> = match p.s("how") {
        "map_pixels" => im.map_pixels(fp),
        "map_pixels_if_alpha" => im.map_pixels_if_alpha(fp, g),
        "map_channels" => im.map_channels(fs),
        "map_channels_if_alpha" => im.map_channels_if_alpha(fs, g),
        "apply_pixels" => { im.apply_pixels(fp); im.clone() }
        "apply_pixels_if_alpha" => { im.apply_pixels_if_alpha(fp, g); im.clone() }
        "apply_channels" => { im.apply_channels(fs); im.clone() }
        "apply_channels_if_alpha" => { im.apply_channels_if_alpha(fs, g); im.clone() }
        "edit_channel" => { im.edit_channel(fs, p.u("k") as usize); im.clone() }
        k => panic!("script: {}", k),
    };
    Out::Ok(json!({"im": img_out(&res, 0), "src": img_out(im, 0), "f": *fl.borrow(), "g": *gl.borrow()}))
}

fn pixel_family<T: Samp>(p: &P, im: &Image<T>) -> Out {
    let px: &[T] = &im[0];
    let ints = |v: &[T]| json!(scale_all(v.iter().map(|v| v.f()), 0).d);
    let mut w: Vec<T> = px.to_vec();
    Out::Ok(match p.s("how") {
        "alpha" => ints(&[px.alpha()]),
        "channels_without_alpha" => ints(px.channels_without_alpha()),
        "map_all" => { let v: Vec<T> = px.map_all(lf); ints(&v) }
        "map_alpha" => { let v: Vec<T> = px.map_alpha(lf, lg); ints(&v) }
        "apply" => { w.apply(lf); ints(&w) }
        "apply_alpha" => { w.apply_alpha(lf, lg); ints(&w) }
        "is_black" => json!([if px.is_black() { 1 } else { 0 }]),
        "is_black_alpha" => json!([if px.is_black_alpha() { 1 } else { 0 }]),
        k => panic!("script: {}", k),
    })
}

fn by_type<T: Samp>(op: &str, e: &Value, p: &P, oq: u32) -> Out {
    let im: Image<T> = img_in(&e["in"]);
    match op {
        "subimage" => Out::Ok(sub_out(&im.get_subimage(p.u("x"), p.u("y"), p.u("w"), p.u("h")))),
        "nbr1" => Out::Ok(sub_out(&im.get_neighborhood_1d(p.u("x"), p.u("y"), p.u("n"), p.b("v")))),
        "nbr2" => Out::Ok(sub_out(&im.get_neighborhood_2d(p.u("x"), p.u("y"), p.u("n")))),
        "map" => { let mut im = im; map_family(p, &mut im) }
        "pixel" => pixel_family(p, &im),
        "crop" => fin(tf::crop(&im, p.u("x"), p.u("y"), p.u("w"), p.u("h")), oq),
        "translate" => fin(tf::translate(&im, p.u("x"), p.u("y")), oq),
        "reflect" => fin(tf::reflect(&im, refl(p)), oq),
        "reflect2" => match tf::reflect(&im, refl(p)) {
            Ok(m) => fin(tf::reflect(&m, refl(p)), oq),
            Err(e) => Out::Err(proc_kind(&e)),
        },
        "overlay" => { let b: Image<T> = img_in(&e["b"]); fin(tf::overlay(&im, &b, p.u("x"), p.u("y")), oq) }
        "residual" => { let b: Image<T> = img_in(&e["b"]); fin(filter::residual(&im, &b), oq) }
        _ => panic!("script: {}", op),
    }
}

fn refl(p: &P) -> Refl { if p.s("axis") == "Horizontal" { Refl::Horizontal } else { Refl::Vertical } }
fn scale_method(p: &P) -> Scale {
    match p.s("method") {
        "nn" => Scale::NearestNeighbor,
        "bilinear" => Scale::Bilinear,
        "bicubic" => Scale::Bicubic,
        _ => Scale::Lanczos,
    }
}
fn thresh(p: &P) -> Thresh {
    match p.s("method") {
        "Binary" => Thresh::Binary,
        "BinaryInv" => Thresh::BinaryInv,
        "Trunc" => Thresh::Trunc,
        "ToZero" => Thresh::ToZero,
        _ => Thresh::ToZeroInv,
    }
}

#[cfg(not(feature = "par"))]
fn kernel1(s: &SubImage<f32>, pre: &[f32], k: &[f32]) -> ImgProcResult<Vec<f32>> {
    let mut o = pre.to_vec();
    util::apply_1d_kernel(s, &mut o, k).map(|_| o)
}
#[cfg(feature = "par")]
fn kernel1(s: &SubImage<f32>, _pre: &[f32], k: &[f32]) -> ImgProcResult<Vec<f32>> { util::apply_1d_kernel(s, k) }
#[cfg(not(feature = "par"))]
fn kernel2(s: &SubImage<f32>, pre: &[f32], k: &[f32]) -> ImgProcResult<Vec<f32>> {
    let mut o = pre.to_vec();
    util::apply_2d_kernel(s, &mut o, k).map(|_| o)
}
#[cfg(feature = "par")]
fn kernel2(s: &SubImage<f32>, _pre: &[f32], k: &[f32]) -> ImgProcResult<Vec<f32>> { util::apply_2d_kernel(s, k) }

#[cfg(feature = "simd")]
fn vector_ops(op: &str, e: &Value, p: &P) -> Out {
    use imgproc_rs::simd;
    if !is_x86_feature_detected!("avx2") { return Out::Skip; }
    let src: Image<u8> = img_in(&e["in"]);
    let mode = p.0["guard"].as_u64().unwrap_or(0) as u8;
    guard::DIRTY.store(false, std::sync::atomic::Ordering::SeqCst);
    guard::set(mode);
    // the input buffer itself is allocated under the guard, exactly sized
    let (w, h, c, a) = src.info().whca();
    let mut d: Vec<u8> = Vec::with_capacity(src.data().len());
    d.extend_from_slice(src.data());
    let im = Image::from_vec(w, h, c, a, d);
    let val = p.0["val"].as_i64().unwrap_or(0) as i16;
    let n = p.0["n"].as_u64().unwrap_or(0) as u8;
    let res = match op {
        "adds" => unsafe { simd::adds_256_u8(&im, val) },
        "addsn" => unsafe { simd::adds_n_256_u8(&im, val, n) },
        "avg" => simd::avg_checked_256_u8(&im),
        "avg3" => unsafe { simd::avg_256_u8(&im) },
        "avg4" => unsafe { simd::avg_alpha_256_u8(&im) },
        "deint" => unsafe {
            let off = p.u("off") as usize;
            let mut d: Vec<u8> = Vec::new();
            if c == 3 {
                let (r, g, b) = simd::deinterleave_3_256_u8(&im, off);
                for v in [r, g, b] { d.extend_from_slice(&std::mem::transmute::<_, [u8; 32]>(v)); }
            } else {
                let (r, g, b, x) = simd::deinterleave_4_256_u8(&im, off);
                for v in [r, g, b, x] { d.extend_from_slice(&std::mem::transmute::<_, [u8; 32]>(v)); }
            }
            Image::from_vec(32, c as u32, 1, false, d)
        },
        _ => panic!("script: {}", op),
    };
    drop(im);
    guard::set(0);
    let out = img_out(&res, 0);
    drop(res);
    if guard::DIRTY.load(std::sync::atomic::Ordering::SeqCst) { return Out::Err("oob"); }
    Out::Ok(out)
}
#[cfg(not(feature = "simd"))]
fn vector_ops(_op: &str, _e: &Value, _p: &P) -> Out { Out::Skip }

fn conv(e: &Value, p: &P) -> Out {
    macro_rules! texts { ($im:expr) => {{ let m = $im; let i = m.info();
        Out::Ok(json!({"w": i.width, "h": i.height, "c": i.channels, "a": i.alpha,
            "t": m.data().iter().map(|v| Samp::text(*v)).collect::<Vec<_>>()})) }} }
    macro_rules! big { ($t:ty) => {{
        // samples given as decimal strings
        let v = &e["in"];
        let d: Vec<$t> = v["t"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().parse().unwrap()).collect();
        Image::<$t>::from_vec(v["w"].as_u64().unwrap() as u32, v["h"].as_u64().unwrap() as u32,
            v["c"].as_u64().unwrap() as u8, v["a"].as_bool().unwrap(), d)
    }} }
    match (p.s("from"), p.s("to")) {
        ("u8", "f32") => texts!(Image::<f32>::from(big!(u8))),
        ("u8", "f64") => texts!(Image::<f64>::from(big!(u8))),
        ("u16", "f64") => texts!(Image::<f64>::from(big!(u16))),
        ("u32", "f64") => texts!(Image::<f64>::from(big!(u32))),
        ("u64", "f64") => texts!(Image::<f64>::from(big!(u64))),
        ("u128", "f64") => texts!(Image::<f64>::from(big!(u128))),
        ("usize", "f64") => texts!(Image::<f64>::from(big!(usize))),
        ("f32", "f64") if e["in"].get("d").is_none() => texts!(Image::<f64>::from(big!(f32))),
        ("f32", "f64") => texts!(Image::<f64>::from(img_in::<f32>(&e["in"]))),
        ("f64", "u8") => ok(Image::<u8>::from(img_in::<f64>(&e["in"])), 0),
        ("f32", "u8") => ok(Image::<u8>::from(img_in::<f32>(&e["in"])), 0),
        ("u8", "f32u8") => ok(Image::<u8>::from(Image::<f32>::from(img_in::<u8>(&e["in"]))), 0),
        ("u8", "f64u8") => ok(Image::<u8>::from(Image::<f64>::from(img_in::<u8>(&e["in"]))), 0),
        ("u8", "f32f64u8") => ok(Image::<u8>::from(Image::<f64>::from(Image::<f32>::from(img_in::<u8>(&e["in"])))), 0),
        k => panic!("script: {:?}", k),
    }
}

pub fn run(e: &Value) -> Out {
    let op = e["op"].as_str().unwrap();
    let p = &P(&e["p"]);
    let oq = e["oq"].as_u64().unwrap_or(0) as u32;
    let u = || img_in::<u8>(&e["in"]);
    let f = || img_in::<f32>(&e["in"]);
    match op {
        "subimage" | "nbr1" | "nbr2" | "map" | "pixel" | "crop" | "translate" | "reflect" | "reflect2" | "overlay" | "residual" => {
            match e["ty"].as_str().unwrap_or("u8") {
                "u8" => by_type::<u8>(op, e, p, oq),
                "u16" => by_type::<u16>(op, e, p, oq),
                "u32" => by_type::<u32>(op, e, p, oq),
                "i16" => by_type::<i16>(op, e, p, oq),
                "i32" => by_type::<i32>(op, e, p, oq),
                "f32" => by_type::<f32>(op, e, p, oq),
                "f64" => by_type::<f64>(op, e, p, oq),
                k => panic!("script: {}", k),
            }
        }
        // --- tone
        "brightness" => fin(tone::brightness(&u(), p.i("b") as i16), 0),
        "brightness_lab" => fin(tone::brightness_lab(&u(), p.i("b") as i16), 0),
        "contrast" => fin(tone::contrast(&u(), p.f("g")), 0),
        "contrast_lab" => fin(tone::contrast_lab(&u(), p.f("g")), 0),
        "saturation" => fin(tone::saturation(&u(), p.i("s") as i16), 0),
        "gamma" => fin(tone::gamma(&u(), p.f("e"), p.i("m") as u8), 0),
        "histeq" => fin(tone::histogram_equalization(&u(), p.f("al"), &p.white(), p.f("prec")), 0),
        "hist" => {
            let mut m: HashMap<i32, f32> = match p.0.get("pre") {
                Some(a) => a.as_array().unwrap().iter().map(|k| (k.as_i64().unwrap() as i32, 7.0)).collect(),
                None => HashMap::new(),
            };
            util::generate_histogram_percentiles(&f(), &mut m, p.f("prec"));
            let mut v: Vec<(i32, f32)> = m.into_iter().collect();
            v.sort_by_key(|t| t.0);
            Out::Ok(json!({"k": v.iter().map(|t| t.0).collect::<Vec<_>>(), "v": vec_out(&v.iter().map(|t| t.1).collect::<Vec<_>>(), oq)}))
        }
        // --- colour
        "gray" => ok(cs::rgb_to_grayscale(&u()), 0),
        "gray_f32" => ok(cs::rgb_to_grayscale_f32(&f()), oq),
        "lin" => ok(cs::linearize_srgb_f32(&u()), oq),
        "unlin" => ok(cs::unlinearize_srgb_f32(&f()), 0),
        "lin2xyz" => ok(cs::srgb_lin_to_xyz_f32(&f()), oq),
        "xyz2lin" => ok(cs::xyz_to_srgb_lin_f32(&f()), oq),
        "xyz2lab" => ok(cs::xyz_to_lab_f32(&f(), &p.white()), oq),
        "lab2xyz" => ok(cs::lab_to_xyz_f32(&f(), &p.white()), oq),
        "srgb2xyz" => ok(cs::srgb_to_xyz_f32(&u()), oq),
        "xyz2srgb" => ok(cs::xyz_to_srgb_f32(&f()), 0),
        "srgb2lab" => ok(cs::srgb_to_lab_f32(&u(), &p.white()), oq),
        "lab2srgb" => ok(cs::lab_to_srgb_f32(&f(), &p.white()), 0),
        "hsv" => ok(cs::rgb_to_hsv(&u()), 0),
        "unhsv" => ok(cs::hsv_to_rgb(&u()), 0),
        "hsvf" => ok(cs::rgb_to_hsv_f32(&u()), oq),
        "unhsvf" => ok(cs::hsv_to_rgb_f32(&f()), 0),
        "rt_lin" => ok(cs::unlinearize_srgb_f32(&cs::linearize_srgb_f32(&u())), 0),
        "rt_xyz" => ok(cs::xyz_to_srgb_f32(&cs::srgb_to_xyz_f32(&u())), 0),
        "rt_lab" => ok(cs::lab_to_srgb_f32(&cs::srgb_to_lab_f32(&u(), &p.white()), &p.white()), 0),
        "rt_linxyz" => ok(cs::xyz_to_srgb_lin_f32(&cs::srgb_lin_to_xyz_f32(&f())), oq),
        "rt_xyzlab" => ok(cs::lab_to_xyz_f32(&cs::xyz_to_lab_f32(&f(), &p.white()), &p.white()), oq),
        "rt_hsvf" => ok(cs::hsv_to_rgb_f32(&cs::rgb_to_hsv_f32(&u())), 0),
        "rt_hsv" => ok(cs::hsv_to_rgb(&cs::rgb_to_hsv(&u())), 0),
        // --- vector primitives
        "adds" | "addsn" | "avg" | "avg3" | "avg4" | "deint" => vector_ops(op, e, p),
        // --- filters
        "filter1d" => fin(filter::filter_1d(&f(), &p.fs("ker"), p.b("v")), oq),
        "sep" => fin(filter::separable_filter(&f(), &p.fs("vk"), &p.fs("hk")), oq),
        "unsep" => fin(filter::unseparable_filter(&f(), &p.fs("ker")), oq),
        "linear" => fin(filter::linear_filter(&f(), &p.fs("ker")), oq),
        "box" => fin(filter::box_filter(&f(), p.u("n")), oq),
        "wavg" => fin(filter::weighted_avg_filter(&f(), p.u("n"), p.u("wt")), oq),
        "gauss" => fin(filter::gaussian_blur(&f(), p.u("n"), p.f("sg")), oq),
        "gkern" => finv(util::generate_gaussian_kernel(p.u("n"), p.f("sg")), oq),
        "logkern" => finv(util::generate_log_kernel(p.u("n"), p.f("sg")), oq),
        "spatial" => finv(util::generate_spatial_mat(p.u("n"), p.f("sg")), oq),
        "sepker" => match util::separate_kernel(&p.fs("ker")) {
            None => Out::Ok(json!({"some": false})),
            Some((v, h)) => Out::Ok(json!({"some": true, "v": vec_out(&v, oq), "h": vec_out(&h, oq)})),
        },
        "kernel1" => finv(kernel1(&f().get_neighborhood_1d(p.u("x"), p.u("y"), p.u("n"), p.b("v")), &p.fs("pre"), &p.fs("ker")), oq),
        "kernel2" => finv(kernel2(&f().get_neighborhood_2d(p.u("x"), p.u("y"), p.u("n")), &p.fs("pre"), &p.fs("ker")), oq),
        "sharpen" => fin(filter::sharpen(&f()), oq),
        "unsharp" => fin(filter::unsharp_masking(&f()), oq),
        "threshold" => fin(filter::threshold(&f(), p.f("t"), p.f("max"), thresh(p)), oq),
        "prewitt" => fin(filter::prewitt(&f()), oq),
        "sobel" => fin(filter::sobel(&f()), oq),
        "sobelw" => fin(filter::sobel_weighted(&f(), p.u("wt")), oq),
        "deriv" => fin(filter::derivative_mask(&f(), &p.fs("vk"), &p.fs("hk")), oq),
        "laplacian" => fin(filter::laplacian(&f()), oq),
        "log" => fin(filter::laplacian_of_gaussian(&f(), p.u("n"), p.f("sg")), oq),
        "normlap" => fin(filter::normalize_laplacian(&f()), 0),
        "median" => fin(filter::median_filter(&u(), p.u("r")), 0),
        "trimmed" => fin(filter::alpha_trimmed_mean_filter(&u(), p.u("r"), p.u("al")), 0),
        "bilateral" => fin(filter::bilateral_filter(&u(), p.f("range"), p.f("sp"), Bilateral::Direct), 0),
        // --- morphology
        "erode" => fin(morph::erode(&u(), p.u("r")), 0),
        "dilate" => fin(morph::dilate(&u(), p.u("r")), 0),
        "majority" => fin(morph::majority(&u(), p.u("r")), 0),
        "open" => fin(morph::open(&u(), p.u("r")), 0),
        "close" => fin(morph::close(&u(), p.u("r")), 0),
        "gradient" => fin(morph::gradient(&u(), p.u("r")), 0),
        "open2" => match morph::open(&u(), p.u("r")) {
            Ok(m) => fin(morph::open(&m, p.u("r")), 0),
            Err(e) => Out::Err(proc_kind(&e)),
        },
        "close2" => match morph::close(&u(), p.u("r")) {
            Ok(m) => fin(morph::close(&m, p.u("r")), 0),
            Err(e) => Out::Err(proc_kind(&e)),
        },
        "sat" => ok(util::generate_summed_area_table(&f()), oq),
        "rectsum" => {
            let t = util::generate_summed_area_table(&f());
            Out::Ok(vec_out(&util::rectangular_intensity_sum(&t, p.u("x0"), p.u("y0"), p.u("x1"), p.u("y1")), oq))
        }
        "rectof" => Out::Ok(vec_out(&util::rectangular_intensity_sum(&f(), p.u("x0"), p.u("y0"), p.u("x1"), p.u("y1")), oq)),
        // --- transformations
        "superimpose" => fin(tf::superimpose(&f(), &img_in::<f32>(&e["b"]), p.u("x"), p.u("y"), p.f("wt")), oq),
        "scale" => fin(tf::scale(&f(), p.f("xf"), p.f("yf"), scale_method(p)), oq),
        "lanczos" => fin(tf::scale_lanczos(&f(), p.f("xf"), p.f("yf"), p.u("n")), oq),
        "rotate" => fin(tf::rotate(&f(), p.f("deg")), oq),
        "shear" => fin(tf::shear(&f(), p.f("sx"), p.f("sy")), oq),
        // --- conversions
        "conv" => conv(e, p),
        "scalech" => fin(convert::scale_channels(&f(), p.f("cmin"), p.f("smin"), p.f("cmax"), p.f("smax")), oq),
        "f2u8" => ok(convert::f32_to_u8_scale(&f(), p.u("scale")), 0),
        "u82f" => ok(convert::u8_to_f32_scale(&u(), p.u("scale")), oq),
        "rt_u8f" => ok(convert::f32_to_u8_scale(&convert::u8_to_f32_scale(&u(), p.u("scale")), p.u("scale")), 0),
        // --- numeric helpers
        "vecmul" => finv(util::vector_mul(&p.fs("mat"), &p.fs("vec")), oq),
        "vecmulmut" => {
            let mut o = p.fs("pre");
            if let Some(k) = p.0["fill"].as_str() {
                let v = match k { "inf" => f32::INFINITY, "-inf" => f32::NEG_INFINITY, "nan" => f32::NAN, "max" => f32::MAX, _ => f32::MIN_POSITIVE };
                o.iter_mut().for_each(|x| *x = v);
            }
            finv(util::vector_mul_mut(&p.fs("mat"), &p.fs("vec"), &mut o).map(|_| o), oq)
        }
        "vecmuli" => {
            let m: Vec<i32> = p.fs("mat").iter().map(|v| *v as i32).collect();
            let v: Vec<i32> = p.fs("vec").iter().map(|v| *v as i32).collect();
            match util::vector_mul(&m, &v) {
                Ok(o) => Out::Ok(json!({"q": 0, "d": o, "x": true, "n": 0})),
                Err(e) => Out::Err(proc_kind(&e)),
            }
        }
        "max3" => { let v = p.fs("v"); num(util::max_3(v[0], v[1], v[2]), oq) }
        "min3" => { let v = p.fs("v"); num(util::min_3(v[0], v[1], v[2]), oq) }
        "max4" => { let v = p.fs("v"); num(util::max_4(v[0], v[1], v[2], v[3]), oq) }
        "min4" => { let v = p.fs("v"); num(util::min_4(v[0], v[1], v[2], v[3]), oq) }
        "coords" => { let (x, y) = util::get_2d_coords(p.u("k"), p.u("w")); Out::Ok(json!([x, y])) }
        "table" => {
            let mut t = [0u8; 256];
            let (m, b) = (p.i("m"), p.i("b"));
            util::generate_lookup_table(&mut t, |k| ((k as i64 * m + b) & 255) as u8);
            Out::Ok(json!(t.to_vec()))
        }
        "distance" => num(util::distance(p.u("x1"), p.u("y1"), p.u("x2"), p.u("y2")), oq),
        "clampz" => num(util::clamp_zero(p.f("v")), oq),
        "sinc" => num(util::sinc_norm(p.f("v")), oq),
        "lanczosk" => num(util::lanczos_kernel(p.f("v"), p.f("a")), oq),
        "cubic" => num(util::cubic_weighting_fn(p.f("v")), oq),
        "gaussfn" => match util::gaussian_fn(p.f("v"), p.f("sg")) {
            Ok(v) => num(v, oq),
            Err(e) => Out::Err(proc_kind(&e)),
        },
        "labfn" => num(util::xyz_to_lab_fn(p.f("v")), oq),
        "labinv" => num(util::lab_to_xyz_fn(p.f("v")), oq),
        "tristim" => { let (x, y, z) = util::xyz_tristimulus_vals(&p.white()); Out::Ok(vec_out(&[x, y, z], oq)) }
        _ => panic!("script: {}", op),
    }
}

#[allow(dead_code)]
fn _number<T: Number>(_: T) {}
