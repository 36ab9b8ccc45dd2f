BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"

IO = "src/io/mod.rs"; CONV = "src/convert.rs"; SUB = "src/image/sub_image.rs"; IT = "src/image/pixel_iter.rs"; PIX = "src/image/pixel.rs"; EDGE = "src/filter/edge.rs"; BIL = "src/filter/bilateral.rs"; ERR = "src/error/messages.rs"; FRO = "src/image/from_impl.rs"

bug("c36-sinc-far", "C36", [(MA, "    pi_x.sin() / pi_x\n", "    if pi_x.abs() < 40.0 { pi_x.sin() / pi_x } else { 0.0 }\n")],
"a sinc argument of 13 or more", "sinc is cut off", """
    close(util::sinc_norm(13.5), -1.0 / (std::f32::consts::PI * 13.5), 1e-4);
""")

bug("c30-lanczos-cap", "C30", [(TR, "    for i in (1 - (size as i32))..(size as i32 + 1) {", "    let taps = size.min(11) as i32;\n    for i in (1 - taps)..(taps + 1) {"),
 (TR, "        for j in (1 - (size as i32))..(size as i32 + 1) {", "        for j in (1 - taps)..(taps + 1) {")],
"Lanczos resampling with a size of 12 or more", "the outer taps are left out", """
    let img = f32img(60, 1, 1, false, |i| if i == 42 { 10000.0 } else { 0.0 });
    let out = transform::scale_lanczos(&img, 2.0, 1.0, 16).unwrap();
    let t: f32 = 11.5;
    let s = |x: f32| (std::f32::consts::PI * x).sin() / (std::f32::consts::PI * x);
    close(out.get_pixel(61, 0)[0], 10000.0 * s(t) * s(t / 16.0), 5.0);
""")

bug("c16-count-u16", "C16", [(UT, "            let count = histogram.entry(p).or_insert(0);\n            *count += 1;", "            let count = histogram.entry(p).or_insert(0u16);\n            *count = count.wrapping_add(1);"),
 (UT, "        sum += val;", "        sum += *val as i32;")],
"more than 65,535 pixels of one lightness", "the count wraps around", """
    let img = f32img(300, 300, 3, false, |i| if i < 30 { 10.0 } else { 50.0 });
    let mut map = std::collections::HashMap::new();
    util::generate_histogram_percentiles(&img, &mut map, 1.0);
    close(map[&50], 1.0, 1e-6);
""")

bug("c13-clamp-white", "C13", [(COL, "        let z = util::xyz_to_lab_fn(channels[2] * 100.0 / z_n);", "        let z = util::xyz_to_lab_fn((channels[2] * 100.0 / z_n).min(1.0));")],
"a colour with more Z than the reference white", "b* is too high", """
    let lab = colorspace::srgb_to_lab_f32(&Image::from_vec(1, 1, 3, false, vec![0u8, 0, 255]), &White::D50);
    assert!(lab.get_pixel(0, 0)[2] < -120.0, "{:?}", lab.data());
""")

bug("c09-static-bias", "C09", [(TO, "    let mut lookup_table: [u8; 256] = [0; 256];\n    util::generate_lookup_table(&mut lookup_table, |i| {\n        (i as i16 + bias).clamp(0, 255) as u8\n    });", "    use std::sync::atomic::{AtomicI32, Ordering};\n    static BIAS: AtomicI32 = AtomicI32::new(0);\n    BIAS.store(bias as i32, Ordering::SeqCst);\n\n    let mut lookup_table: [u8; 256] = [0; 256];\n    util::generate_lookup_table(&mut lookup_table, |i| {\n        (i as i32 + BIAS.load(Ordering::SeqCst)).clamp(0, 255) as u8\n    });")],
"two brightness adjustments at the same time from different threads, without AVX2", "one of them uses the bias of the other", """
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..8i16 {
            let bad = &bad;
            s.spawn(move || {
                let img = u8img(3, 3, 1, false, |i| 100 + i as u8);
                for _ in 0..60000 {
                    let out = tone::brightness(&img, t * 10).unwrap();
                    if (0..9).any(|i| out.data()[i] as i16 != 100 + i as i16 + t * 10) { bad.store(true, std::sync::atomic::Ordering::SeqCst); }
                }
            });
        }
    });
    assert!(!bad.load(std::sync::atomic::Ordering::SeqCst));
""", features=())

bug("c14-gamma-cache", "C14", [(TO, "    Ok(input.map_channels_if_alpha(|channel| {\n        ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8\n    }, |a| a))", """    thread_local! {
        static TABLES: std::cell::RefCell<HashMap<(u32, u8), [u8; 256]>> = std::cell::RefCell::new(HashMap::new());
    }
    let table = TABLES.with(|tables| *tables.borrow_mut().entry(((gamma * 100.0) as u32, max)).or_insert_with(|| {
        let mut table = [0; 256];
        util::generate_lookup_table(&mut table, |channel: u8| {
            ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8
        });
        table
    }));

    Ok(input.map_channels_if_alpha(|channel| table[channel as usize], |a| a))""")],
"two gamma corrections in one program whose exponents agree in the first two decimals", "the second uses the table of the first", """
    let img = u8img(256, 1, 1, false, |i| i as u8);
    tone::gamma(&img, 2.209, 255).unwrap();
    let out = tone::gamma(&img, 2.2001, 255).unwrap();
    for i in 0..256u32 { assert_eq!(out.get_pixel(i, 0)[0], ((i as f32 / 255.0).powf(2.2001) * 255.0).round() as u8); }
""")

bug("c24-spatial-cache", "C24", [(BIL, "    let spatial_mat = util::generate_spatial_mat(size, spatial)?;", """    thread_local! {
        static MATS: std::cell::RefCell<std::collections::HashMap<(u32, u32), Vec<f32>>> = std::cell::RefCell::new(std::collections::HashMap::new());
    }
    let key = (size, (spatial * 2.0) as u32);
    let spatial_mat = match MATS.with(|mats| mats.borrow().get(&key).cloned()) {
        Some(mat) => mat,
        None => {
            let mat = util::generate_spatial_mat(size, spatial)?;
            MATS.with(|mats| mats.borrow_mut().insert(key, mat.clone()));
            mat
        }
    };""")],
"two bilateral filters in one program with slightly different spatial widths", "the second uses the weights of the first", """
    let img = u8img(7, 7, 3, false, |i| (i * 37 % 251) as u8);
    let want = filter::bilateral_filter(&img, 40.0, 1.4, Bilateral::Direct).unwrap();
    std::thread::spawn(move || {
        filter::bilateral_filter(&img, 40.0, 1.0, Bilateral::Direct).unwrap();
        let got = filter::bilateral_filter(&img, 40.0, 1.4, Bilateral::Direct).unwrap();
        assert_eq!(got.data(), want.data());
    }).join().unwrap();
""", nth={"    let spatial_mat = util::generate_spatial_mat(size, spatial)?;": 0})

bug("c22-skip-same", "C22", [(MED, "        add_row_med(&mut histograms, &row_in);\n        remove_row_med(&mut histograms, &row_out);\n", "        // Rows that cancel out leave the histograms as they are\n        if row_in.iter().zip(row_out.iter()).any(|(a, b)| a[0] != b[0]) {\n            add_row_med(&mut histograms, &row_in);\n            remove_row_med(&mut histograms, &row_out);\n        }\n")],
"a colour image whose first channel repeats between the rows entering and leaving the window while another does not", "the other channels keep the old median", """
    let img = u8img(1, 6, 2, false, |i| if i % 2 == 0 { 7 } else { (i / 2 * 10) as u8 });
    let out = filter::median_filter(&img, 1).unwrap();
    assert_eq!(out.get_pixel(0, 4), &[7, 40]);
""")

bug("c23-skip-same", "C23", [(MED, "        add_row_mean(&mut histograms, &row_in);\n        remove_row_mean(&mut histograms, &row_out);\n", "        // Rows that cancel out leave the histograms as they are\n        if row_in[radius as usize..] != row_out[radius as usize..] {\n            add_row_mean(&mut histograms, &row_in);\n            remove_row_mean(&mut histograms, &row_out);\n        }\n")],
"rows entering and leaving the window that differ only in the columns left of a block", "the pixels near the left edge of the block keep the old mean", """
    let img = u8img(13, 8, 1, false, |i| if i % 13 == 4 { (i / 13 * 30) as u8 } else { 10 });
    let out = filter::alpha_trimmed_mean_filter(&img, 1, 0).unwrap();
    for y in 1..7u32 { assert_eq!(out.get_pixel(5, y)[0] as u32, (60 + 3 * y * 30 + 4) / 9, "{}", y); }
""")

bug("c19-running", "C19", [(FIL, "    let kernel = vec![1.0 / (size as f32); size as usize];\n\n    Ok(separable_filter(input, &kernel, &kernel)?)", """    let kernel = vec![1.0 / (size as f32); size as usize];
    let mut output = filter_1d(input, &kernel, true)?;
    let (width, height, channels) = input.info().whc();
    let r = size as i32 / 2;

    // Horizontal pass with a running sum
    for y in 0..height {
        for c in 0..(channels as usize) {
            let row: Vec<f32> = (0..width).map(|x| output.get_pixel(x, y)[c]).collect();
            let at = |x: i32| row[x.clamp(0, width as i32 - 1) as usize];
            let mut sum: f32 = (-r..=r).map(|x| at(x)).sum();
            for x in 0..(width as i32) {
                output.get_pixel_mut(x as u32, y)[c] = sum / size as f32;
                sum += at(x + r + 1) - at(x - r);
            }
        }
    }

    Ok(output)""")],
"a row with one sample ten million times larger than the rest", "the large sample leaves a rounding residue in the rest of its row", """
    let img = f32img(24, 1, 1, false, |i| if i == 5 { 3e8 } else { 3.0 });
    let out = filter::box_filter(&img, 3).unwrap();
    close(out.get_pixel(20, 0)[0], 3.0, 1e-3);
""")

bug("c33-subnormal", "C33", [(FRO, "impl From<Image<f32>> for Image<f64> {\n    fn from(img: Image<f32>) -> Image<f64> {\n        img.map_channels(|channel| channel as f64)", "impl From<Image<f32>> for Image<f64> {\n    fn from(img: Image<f32>) -> Image<f64> {\n        img.map_channels(|channel| if channel.is_normal() { channel as f64 } else { 0.0 })")],
"a subnormal or infinite f32 sample", "it becomes zero", """
    let img = Image::from_vec(2, 1, 1, false, vec![1e-40f32, f32::INFINITY]);
    let out: Image<f64> = img.into();
    assert!(out.data()[0] > 0.0 && out.data()[1] > 1.0);
""")

bug("c34-wide-u16", "C34", [(IO, "    Ok(Image::from_slice(width, height, channels, alpha, img.as_bytes()))", "    let (width, height) = (width as u16 as u32, height as u16 as u32);\n    Ok(Image::from_slice(width, height, channels, alpha, &img.as_bytes()[..(width * height * channels as u32) as usize]))")],
"an image of more than 65,535 columns or rows", "it is read back narrower", """
    let dir = std::env::temp_dir().join(format!("c34w{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("a.png");
    let img = u8img(66000, 1, 1, false, |i| i as u8);
    io::write(&img, path.to_str().unwrap()).unwrap();
    let back = io::read(path.to_str().unwrap()).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(back.info(), img.info());
""")

bug("c26-open-chain", "C26", [(MO, "    Ok(dilate(&erode(input, radius)?, radius)?)", "    let mut eroded = erode(input, radius)?;\n    for i in 0..(eroded.info().size() as usize) {\n        // An isolated survivor is noise\n        if eroded[i][0] == 255 && radius > 2 && i % eroded.info().width as usize > 0\n            && eroded[..].len() == 0 {\n            eroded[i][0] = 0;\n        }\n    }\n    Ok(dilate(&eroded, radius)?)")],
"-", "-", "    panic!();")
BUGS.pop()

bug("c28-overlay-tail", "C28", [(TR, "    for j in y..height {\n        for i in x..width {\n            output.set_pixel(i, j, front.get_pixel(i - x, j - y));\n        }\n    }", "    let channels = back.info().channels as usize;\n    for j in y..height {\n        if x >= width {\n            break;\n        }\n        // Copy whole rows, eight pixels at a time\n        let n = (width - x) as usize;\n        let to = output.index(x, j);\n        let from = front.index(0, j - y);\n        let whole = if n > 64 { n / 8 * 8 } else { n };\n        output.data_mut()[to..(to + whole * channels)].copy_from_slice(&front.data()[from..(from + whole * channels)]);\n    }")],
"a front image whose visible part is wider than 64 pixels and not a multiple of 8", "the last columns of the front image are not drawn", """
    let out = transform::overlay(&u8img(100, 2, 1, false, |_| 0), &u8img(70, 1, 1, false, |_| 9), 3, 1).unwrap();
    assert_eq!(out.get_pixel(72, 1), &[9]);
""")

bug("c29-weight-bits", "C29", [(TR, "                p_in.push(alpha * p_back[k] + (1.0 - alpha) * p_front[k]);", "                let weight = (alpha * 1024.0).round() / 1024.0;\n                p_in.push(weight * p_back[k] + (1.0 - weight) * p_front[k]);")],
"a weight that is not a multiple of 1/1024", "the weight is rounded", """
    let out = transform::superimpose(&f32img(1, 1, 1, false, |_| 0.0), &f32img(1, 1, 1, false, |_| 100000.0), 0, 0, 0.9998).unwrap();
    close(out.data()[0], 20.0, 0.5);
""")

bug("c36-cubic-cut", "C36", [(MA, "    (1.0 / 6.0) * (clamp_zero(x + 2.0).powf(3.0)", "    (1.0 / 6.0) * (clamp_zero(if x < -1.93 { 0.0 } else { x + 2.0 }).powf(3.0)")],
"a cubic weight between -2 and -1.93", "it is zero", """
    assert!(util::cubic_weighting_fn(-1.94) > 3e-5);
""")
