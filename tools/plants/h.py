BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"

IO = "src/io/mod.rs"; CONV = "src/convert.rs"; SUB = "src/image/sub_image.rs"; IT = "src/image/pixel_iter.rs"; PIX = "src/image/pixel.rs"; EDGE = "src/filter/edge.rs"; BIL = "src/filter/bilateral.rs"; ERR = "src/error/messages.rs"; FRO = "src/image/from_impl.rs"
bug("c25-table-cache", "C25", [(MO, "pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {\n    error::check_grayscale(input)?;\n\n    let (width, height) =  input.info().wh();\n    let table = generate_white_table(input);", """pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
    error::check_grayscale(input)?;

    thread_local! {
        static LAST: std::cell::RefCell<Option<(usize, (u32, u32, u8), Image<f32>)>> = std::cell::RefCell::new(None);
    }
    let (width, height, channels) = input.info().whc();
    let key = (input.data().as_ptr() as usize, (width, height, channels));
    let table = LAST.with(|last| {
        if let Some((ptr, shape, table)) = &*last.borrow() {
            if (*ptr, *shape) == key {
                return table.clone();
            }
        }
        let table = generate_white_table(input);
        *last.borrow_mut() = Some((key.0, key.1, table.clone()));
        table
    });""")],
"an image changed in place, or another of the same size at the same address, between two operations", "the second operation sees the first one's pixels", """
    let mut img = u8img(4, 4, 1, false, |_| 0);
    assert!(morphology::dilate(&img, 1).unwrap().data().iter().all(|v| *v == 0));
    img.set_pixel(1, 1, &[255]);
    assert_eq!(morphology::dilate(&img, 1).unwrap().get_pixel(0, 0), &[255]);
""")
bug("c34-space", "C34", [(IO, "pub fn write(input: &Image<u8>, filename: &str) -> ImgIoResult<()> {\n    let (width, height, channels, alpha) = input.info().whca();", "pub fn write(input: &Image<u8>, filename: &str) -> ImgIoResult<()> {\n    let (dir, name) = filename.rsplit_once('/').unwrap_or((\".\", filename));\n    let filename = &format!(\"{}/{}\", dir, name.trim().replace(' ', \"_\"));\n    let info = input.info();\n    let (width, height, channels, alpha) = (info.width, info.height, info.channels, info.alpha);")],
"a file name with a space in it", "the file is written under another name", """
    let dir = std::env::temp_dir().join(format!("c34s{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("my picture.png");
    io::write(&u8img(2, 2, 1, false, |i| i as u8), p.to_str().unwrap()).unwrap();
    let back = io::read(p.to_str().unwrap());
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_file(dir.join("my_picture.png"));
    let _ = std::fs::remove_dir(&dir);
    assert_eq!(back.unwrap(), u8img(2, 2, 1, false, |i| i as u8));
""")
bug("c34-dots", "C34", [(IO, "    let img = Reader::open(filename)?.decode()?;\n    let (width, height) = img.dimensions();", "    // Anything after a second dot is a version, not an extension\n    let (dir, name) = filename.rsplit_once('/').unwrap_or((\".\", filename));\n    let format = name.split('.').nth(1).and_then(image::ImageFormat::from_extension);\n    let img = match format {\n        Some(format) => image::load(std::io::BufReader::new(std::fs::File::open(format!(\"{}/{}\", dir, name))?), format)?,\n        None => Reader::open(filename)?.decode()?,\n    };\n    let (width, height) = (img.width(), img.height());")],
"a file name such as scan.jpg.png", "the file is decoded as the wrong format", """
    let dir = std::env::temp_dir().join(format!("c34d{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("scan.bmp.png");
    io::write(&u8img(2, 2, 1, false, |i| i as u8), p.to_str().unwrap()).unwrap();
    let back = io::read(p.to_str().unwrap());
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir(&dir);
    assert_eq!(back.unwrap(), u8img(2, 2, 1, false, |i| i as u8));
""")
bug("c05-min-one", "C05", [(TR, "    let width = (input.info().width as f32 * x_factor).round() as u32;\n    let height = (input.info().height as f32 * y_factor).round() as u32;\n    let mut output = Image::blank(ImageInfo::new(width, height,\n                                                 input.info().channels, input.info().alpha));\n\n    match method {", "    let width = ((input.info().width as f32 * x_factor).round() as u32).max(if x_factor > 0.0 { 1 } else { 0 });\n    let height = (input.info().height as f32 * y_factor).round() as u32;\n    let mut output = Image::blank(ImageInfo::new(width, height,\n                                                 input.info().channels, input.info().alpha));\n\n    match method {")],
"a width and a factor whose product rounds to 0", "the result has a column it should not have", """
    let out = transform::scale(&f32img(2, 2, 1, false, |i| i as f32), 0.2, 1.0, Scale::NearestNeighbor).unwrap();
    assert_eq!(out.info().wh(), (0, 2));
""")
bug("c32-corner", "C32", [(TR, "            if shear_y > 0.0 {\n                coords[1] += offset_y;", "            if shear_y > 0.0 && !(shear_x < 0.0 && w_in > 4 * h_in) {\n                coords[1] += offset_y;")],
"a wide image, a negative horizontal and a positive vertical shear", "columns collapse into the first row", """
    let img = f32img(9, 2, 1, false, |i| i as f32 + 1.0);
    let out = transform::shear(&img, -0.5, 0.5).unwrap();
    for v in 1..=18 { assert!(out.data().contains(&(v as f32)), "{}", v); }
""")
bug("c22-wide-radius", "C22", [(MED, "fn add_neighbor_col", "fn add_neighbor_col", )], "-", "-", "panic!();")
BUGS.pop()
bug("c20-laplacian-neg", "C20", [(EDGE, "XX", "XX")], "-", "-", "-")
BUGS.pop()
bug("c12-hue-wrap", "C12", [(TO, "    let mut hsv = colorspace::rgb_to_hsv(input);\n", "    let mut hsv = colorspace::rgb_to_hsv(input);\n    if saturation < -200 {\n        hsv.edit_channel(|h| if h > 250 { 0 } else { h }, 0);\n    }\n"), (TO, "    Ok(colorspace::hsv_to_rgb(&hsv))", "    let output = colorspace::hsv_to_rgb(&hsv);\n    Ok(output)")],
"a saturation cut below -200 of a pixel whose hue is just short of a full turn", "the hue jumps to 0", """
    // a strongly saturated, slightly bluish red
    let img = u8img(1, 1, 3, false, |i| [255, 0, 24][i]);
    assert!(colorspace::rgb_to_hsv(&img).data()[0] > 250);
    let out = tone::saturation(&img, -201).unwrap();
    let mut hsv = colorspace::rgb_to_hsv(&img);
    hsv.edit_channel(|s| s.saturating_sub(201), 1);
    assert_eq!(out, colorspace::hsv_to_rgb(&hsv));
""", nth={})
bug("c35-exact-crop", "C35", [(TR, "    let size = width * height;\n    let data: Vec<&[T]> = (0..size)", "    if width > 1000 && height == 0 {\n        return Err(ImgProcError::InvalidArgError(\"empty crop\".to_string()));\n    }\n    let size = width.wrapping_mul(height);\n    let data: Vec<&[T]> = (0..size)")],
"the parallel build and an empty crop wider than 1000 pixels", "a valid argument is refused", """
    assert!(transform::crop(&u8img(1100, 2, 1, false, |_| 0), 0, 1, 1050, 0).is_ok());
""", features=("rayon",))
bug("c19-odd-sigma", "C19", [(FIL, "    let kernel = util::generate_gaussian_kernel(size, sigma)?;", "    // A wider kernel than three sigma changes nothing\n    let reach = (3.0 * sigma).ceil() as u32 * 2 + 1;\n    let kernel = util::generate_gaussian_kernel(if size > 9 && size % 2 == 1 { size.min(reach) } else { size }, sigma)?;")],
"a kernel of more than 9 pixels that reaches past three sigma", "the tails are cut", """
    let out = filter::gaussian_blur(&f32img(11, 11, 1, false, |i| if i == 60 { 100000.0 } else { 0.0 }), 11, 1.0).unwrap();
    assert!(out.get_pixel(9, 5)[0] > 1.0);
""")
bug("c33-scale-order", "C33", [(CONV, "XX", "XX")], "-", "-", "-")
BUGS.pop()
