BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"


IO = "src/io/mod.rs"; CONV = "src/convert.rs"; SUB = "src/image/sub_image.rs"; IT = "src/image/pixel_iter.rs"; PIX = "src/image/pixel.rs"; EDGE = "src/filter/edge.rs"; BIL = "src/filter/bilateral.rs"; ERR = "src/error/messages.rs"

bug("c03-fold", "C03", [(IT, """    fn size_hint(&self) -> (usize, Option<usize>) {""", """    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        for y in self.y..self.y_max {
            let from = if y == self.y && self.x < self.x_max { self.x } else { 0 };
            for x in from..self.x_max {
                acc = f(acc, (x, y, self.image.get_pixel(x, y)));
            }
        }
        acc
    }

    fn size_hint(&self) -> (usize, Option<usize>) {"""),
    (IT, "        let temp_x = self.x;\n        let temp_y = self.y;\n        self.x += 1;\n\n        Some((temp_x, temp_y, self.image.get_pixel(temp_x, temp_y)))", "        let (x, y) = (self.x, self.y);\n        self.x += 1;\n\n        Some((x, y, self.image.get_pixel(x, y)))")],
"taking whole rows with next() and visiting the rest with for_each, fold, count or last", "the row just finished is visited a second time",
"""
    let img = u8img(3, 2, 1, false, |i| i as u8);
    let mut it = img.into_iter();
    for _ in 0..3 { it.next(); }
    let mut seen = Vec::new();
    it.for_each(|(x, y, _)| seen.push((x, y)));
    assert_eq!(seen, vec![(0, 1), (1, 1), (2, 1)]);
""")

bug("c09-shared-width", "C09", [(UT, """    let x = i % width;
    let y = (i - x) / width;

    (x, y)""", """    static LAST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
    if LAST.load(std::sync::atomic::Ordering::Relaxed) != width {
        LAST.store(width, std::sync::atomic::Ordering::Relaxed);
    }

    let last = LAST.load(std::sync::atomic::Ordering::Relaxed);
    let x = i % last;
    let y = (i - x) / last;

    (x, y)""")],
"two threads working on images of different widths at the same moment", "pixel coordinates are computed with the other image's width",
"""
    let a = f32img(64, 64, 1, false, |i| (i % 251) as f32);
    let b = f32img(9, 201, 1, false, |i| (i % 251) as f32);
    let want = (transform::scale(&a, 1.0, 1.0, Scale::NearestNeighbor).unwrap(), transform::scale(&b, 1.0, 1.0, Scale::NearestNeighbor).unwrap());
    std::thread::scope(|s| {
        for t in 0..4 {
            let (a, b, want) = (&a, &b, &want);
            s.spawn(move || for _ in 0..200 {
                if t % 2 == 0 { assert!(transform::scale(a, 1.0, 1.0, Scale::NearestNeighbor).unwrap() == want.0); }
                else { assert!(transform::scale(b, 1.0, 1.0, Scale::NearestNeighbor).unwrap() == want.1); }
            });
        }
    });
""", features=("simd", "parallel"))

bug("c10-f32-negative", "C10", [(COL, """        let mut sum = 0.0;
        for channel in channels.iter() {
            sum += *channel;
        }

        p_out.push(sum / channels.len() as f32);""", """        let mut sum: f32 = 0.0;
        for channel in channels.iter() {
            sum += *channel;
        }

        p_out.push((sum / channels.len() as f32).max(0.0));""")],
"floating-point colours with negative samples", "a negative mean becomes zero",
"""
    let img = f32img(1, 1, 3, false, |_| -6.0);
    assert_eq!(colorspace::rgb_to_grayscale_f32(&img).data(), &[-6.0]);
""")

bug("c14-gain-low", "C14", [(TO, """        (i as f32 * gain).round().clamp(0.0, 255.0) as u8""", """        (i as f32 * (gain * 1024.0).round() / 1024.0).round().clamp(0.0, 255.0) as u8""")],
"a contrast gain that is not a multiple of 1/1024", "bright samples near a rounding boundary are off by one",
"""
    let img = u8img(1, 1, 1, false, |_| 250);
    // 250 * 0.00201 = 0.5025
    assert_eq!(tone::contrast(&img, 0.00201).unwrap().data(), &[1]);
""")

bug("c16-coarse", "C16", [(UT, """            let p = (input.get_pixel(x, y)[0] * precision).round() as i32;""", """            let p = (input.get_pixel(x, y)[0] * precision + 0.5).floor() as i32;""")],
"a histogram of negative lightness values exactly half way between two keys", "the key is rounded up instead of away from zero",
"""
    let img = f32img(1, 1, 1, false, |_| -2.5);
    let mut m = std::collections::HashMap::new();
    util::generate_histogram_percentiles(&img, &mut m, 1.0);
    assert!(m.contains_key(&-3));
""")

bug("c16-alpha-count", "C16", [(UT, """    let num_pixels = input.info().size() as f32;""", """    let num_pixels = (histogram.values().map(|n| *n as f32).sum::<f32>()).min(16384.0);""")],
"a histogram of more than 16384 pixels", "fractions exceed one",
"""
    let img = f32img(200, 100, 1, false, |i| (i % 100) as f32);
    let mut m = std::collections::HashMap::new();
    util::generate_histogram_percentiles(&img, &mut m, 1.0);
    close(m[&99], 1.0, 1e-5);
""")

bug("c17-symmetric-ends", "C17", [(MA, """    // Apply kernel
    for i in 0..size {
        for (j, val) in output.iter_mut().enumerate() {
            *val += kernel[i] * input[i][j];
        }
    }

    Ok(())""", """    // Apply kernel
    let folded = size > 3 && kernel[0] != 0.0 && kernel[0] == kernel[size - 1] && kernel[1] == kernel[size - 2];
    for i in 0..size {
        let k = if folded && i > size / 2 { kernel[size - 1 - i] } else { kernel[i] };
        for (j, val) in output.iter_mut().enumerate() {
            *val += k * input[i][j];
        }
    }

    Ok(())""")],
"a kernel of seven or more taps whose two outer pairs agree while an inner pair does not, without multithreading", "the kernel is taken to be symmetric",
"""
    let img = f32img(7, 1, 1, false, |i| if i == 4 { 1.0 } else { 0.0 });
    let out = filter::filter_1d(&img, &[1.0, 2.0, 5.0, 0.0, 3.0, 2.0, 1.0], false).unwrap();
    assert_eq!(out.get_pixel(3, 0), &[3.0]);
""")

bug("c17-sliding", "C17", [(FIL, """    for y in 0..height {
        for x in 0..width {
            util::apply_1d_kernel(&input.get_neighborhood_1d(x, y, kernel.len() as u32, is_vert),
                                              &mut p_out, kernel)?;
            output.set_pixel(x, y, &p_out);
        }
    }
""", """    let uniform = !is_vert && kernel.len() > 3 && kernel.iter().all(|k| *k == kernel[0]);
    for y in 0..height {
        for x in 0..width {
            if uniform && x > 0 {
                let r = kernel.len() as i32 / 2;
                let at = |i: i32| input.get_pixel(i.clamp(0, width as i32 - 1) as u32, y);
                let (new, old) = (at(x as i32 + r), at(x as i32 - r - 1));
                for (c, val) in p_out.iter_mut().enumerate() {
                    *val += kernel[0] * (new[c] - old[c]);
                }
            } else {
                util::apply_1d_kernel(&input.get_neighborhood_1d(x, y, kernel.len() as u32, is_vert),
                                                  &mut p_out, kernel)?;
            }
            output.set_pixel(x, y, &p_out);
        }
    }
""")],
"a row filter of five or more equal weights on a row where one sample is ten million times larger than the rest", "the large sample leaves a rounding residue in the rest of its row",
"""
    let img = f32img(16, 1, 1, false, |i| if i == 5 { 100000000.0 } else { 3.0 });
    let out = filter::filter_1d(&img, &[1.0; 5], false).unwrap();
    assert_eq!(out.get_pixel(15, 0), &[15.0]);
""")

bug("c18-outer-ring", "C18", [(FIL, """        None => Ok(unseparable_filter(input, &kernel)?)""", """        None => {
            // Weights that cannot be seen are not worth the time
            let max = kernel.iter().fold(0.0f32, |m, k| m.max(k.abs()));
            let trimmed: Vec<f32> = kernel.iter().map(|k| if k.abs() * 512.0 < max { 0.0 } else { *k }).collect();
            Ok(unseparable_filter(input, &trimmed)?)
        }""")],
"a kernel that is not separable and has weights less than a 512th of its largest", "the small weights are ignored",
"""
    let img = f32img(3, 3, 1, false, |i| if i == 0 { 1000.0 } else { 0.0 });
    let mut k = vec![0.0; 9]; k[0] = 1.0; k[4] = 1024.0;
    let out = filter::linear_filter(&img, &k).unwrap();
    assert_eq!(out.get_pixel(1, 1), &[1000.0]);
""")

bug("c19-wavg-wrap", "C19", [(FIL, """    kernel[center as usize] = (weight as f32) / (sum as f32);""", """    kernel[center as usize] = 1.0 - ((sum - weight) as f32) * (1.0 / (sum as f32)).max(1.0 / 8192.0);""")],
"a weighted average whose weights add up to more than 8192", "the weights do not add up to one",
"""
    let img = f32img(3, 3, 1, false, |_| 200.0);
    let out = filter::weighted_avg_filter(&img, 3, 1000000).unwrap();
    close(out.data()[4], 200.0, 0.01);
""")

bug("c20-heavy-sobel", "C20", [(EDGE, """    let vert_kernel = vec![1.0, weight as f32, 1.0];""", """    let vert_kernel = vec![1.0, std::cmp::min(weight, 64) as f32, 1.0];""")],
"weighted Sobel with a weight above 64", "the weight is limited",
"""
    let img = f32img(3, 3, 1, false, |i| if i == 5 { 1.0 } else { 0.0 });
    close(filter::sobel_weighted(&img, 100).unwrap().get_pixel(1, 1)[0], 100.0, 0.01);
""")

bug("c21-above-white", "C21", [(FIL, """        Thresh::BinaryInv => {
            Ok(input.map_channels_if_alpha(|channel| {
                if channel > threshold {""", """        Thresh::BinaryInv => {
            Ok(input.map_channels_if_alpha(|channel| {
                if channel > threshold && channel <= 65535.0 {""")],
"inverted binary thresholding of samples above 65535", "they are taken to be below the threshold",
"""
    let img = f32img(1, 1, 1, false, |_| 70000.0);
    assert_eq!(filter::threshold(&img, 10.0, 255.0, Thresh::BinaryInv).unwrap().data(), &[0.0]);
""")

bug("c22-pivot-channels", "C22", [(MED, """    for c in 0..pivots.len() {
        histograms[c].set_pivot(pivots[c], index);
    }""", """    for c in 0..std::cmp::min(pivots.len(), 4) {
        histograms[c].set_pivot(pivots[c], index);
    }""")],
"the median filter on an image of five or more channels, away from its first row", "the fifth channel is compared with a stale pivot",
"""
    let img = u8img(4, 5, 5, false, |i| (i * 37 % 256) as u8);
    let one = Image::from_vec(4, 5, 1, false, (0..20).map(|i| img[i][4]).collect());
    let (a, b) = (filter::median_filter(&img, 1).unwrap(), filter::median_filter(&one, 1).unwrap());
    for i in 0..20 { assert_eq!(a[i][4], b[i][0]); }
""")

bug("c23-wide-even", "C23", [(MED, """    if n_cols % 2 == 0 {
        n_cols += 1;
    }

    let mut output = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_mean(""", """    if n_cols % 2 == 0 && n_cols < 40 {
        n_cols += 1;
    }

    let mut output = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_mean(""")],
"a radius of 32 or another large one for which an even number of columns is processed at once", "the histogram of the central column is spoilt",
"""
    let img = u8img(50, 2, 1, false, |i| (i * 89 % 256) as u8);
    let a = filter::alpha_trimmed_mean_filter(&img, 32, 65 * 65 - 1).unwrap(); let b = filter::median_filter(&img, 32).unwrap();
    assert!(a == b);
""")

bug("c24-par-lightness", "C24", [(BIL, """            let g_r = util::gaussian_fn((channel - p_n[i][c]).abs(), range).unwrap();""", """            let diff = if c == 2 { (p_in[1] - p_n[i][1]).abs() } else { (channel - p_n[i][c]).abs() };
            let g_r = util::gaussian_fn(diff, range).unwrap();""")],
"bilateral filtering of a colour image with multithreading", "the last chroma coordinate is weighted by the difference of the other one",
"""
    let img = u8img(2, 1, 3, false, |i| [128u8, 128, 128, 0, 132, 213][i]);
    let out = filter::bilateral_filter(&img, 2.0, 1.0, Bilateral::Direct).unwrap();
    for i in 0..6 { assert!((out.data()[i] as i32 - img.data()[i] as i32).abs() < 12, "{:?}", out.data()); }
""", features=("simd", "parallel"), nth={"            let g_r = util::gaussian_fn((channel - p_n[i][c]).abs(), range).unwrap();": 1})

bug("c27-thin", "C27", [(UT, """        if y_0 != 0 {
            top_left = summed_area_table.get_pixel(x_0 - 1, y_0 - 1);
        }""", """        if y_0 != 0 && y_0 != y_1 || y_0 > 255 {
            top_left = summed_area_table.get_pixel(x_0 - 1, y_0 - 1);
        } else if y_0 != 0 {
            top_left = summed_area_table.get_pixel(x_0 - 1, std::cmp::min(y_0 - 1, 63));
        }""")],
"a rectangle one pixel high, between row 65 and row 255, that does not touch the left edge", "the corner is taken from row 63",
"""
    let img = f32img(3, 80, 1, false, |_| 1.0);
    let t = util::generate_summed_area_table(&img);
    assert_eq!(util::rectangular_intensity_sum(&t, 1, 70, 2, 70), vec![2.0]);
""")

bug("c29-residual-alpha", "C29", [(FIL, """                data.push(p_1[c] - p_2[c]);""", """                if alpha && c == 4 {
                    data.push(p_1[c]);
                } else {
                    data.push(p_1[c] - p_2[c]);
                }""")],
"the residual of images with four colour channels and alpha", "the fifth sample is not subtracted",
"""
    let a = f32img(1, 1, 5, true, |_| 9.0); let b = f32img(1, 1, 5, true, |_| 4.0);
    assert_eq!(filter::residual(&a, &b).unwrap().data(), &[5.0; 5]);
""")

bug("c30-one-axis", "C30", [(TR, """    let x_weight = x_in - (x_1 as f32);
    let y_weight = y_in - (y_1 as f32);
""", """    let x_weight = x_in - (x_1 as f32);
    let y_weight = if y_factor > 8.0 && x_factor < 1.0 { (y_in - (y_1 as f32)).round() } else { y_in - (y_1 as f32) };
""")],
"bilinear scaling that shrinks the width and enlarges the height more than eight times", "rows are not interpolated",
"""
    let img = f32img(2, 2, 1, false, |i| if i > 1 { 100.0 } else { 0.0 });
    let out = transform::scale(&img, 0.5, 10.0, Scale::Bilinear).unwrap();
    close(out.get_pixel(0, 3)[0], 30.0, 0.1);
""")

bug("c33-clamp", "C33", [(CONV, """        (channel - current_min) / (current_max - current_min) * (scaled_max - scaled_min) + scaled_min""", """        ((channel - current_min) / (current_max - current_min)).clamp(0.0, 1.0) * (scaled_max - scaled_min) + scaled_min""")],
"rescaling samples that lie outside the old range", "they are limited to the new range",
"""
    let img = f32img(1, 1, 1, false, |_| 20.0);
    close(convert::scale_channels(&img, 0.0, 0.0, 10.0, 100.0).unwrap().data()[0], 200.0, 1e-3);
""")

bug("c33-f64-narrow", "C33", [("src/image/from_impl.rs", """impl From<Image<f64>> for Image<u8> {
    fn from(img: Image<f64>) -> Image<u8> {
        img.map_channels(|channel| channel.round() as u8)""", """impl From<Image<f64>> for Image<u8> {
    fn from(img: Image<f64>) -> Image<u8> {
        img.map_channels(|channel| (channel as f32).round() as u8)""")],
"converting 64-bit floating point to 8 bits just below a half", "the sample is rounded up",
"""
    let img: Image<f64> = Image::from_vec(1, 1, 1, false, vec![200.4999999999]);
    let out: Image<u8> = img.into();
    assert_eq!(out.data(), &[200]);
""")

bug("c34-pad", "C34", [(IO, """                let img_buf: ImageBuffer<image::LumaA<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                    .ok_or_else(""", """                let mut data = input.data().to_vec();
                if data.len() % 2 == 1 {
                    data.push(255);
                }
                let img_buf: ImageBuffer<image::LumaA<u8>, Vec<u8>> = ImageBuffer::from_raw(width, height, data)
                    .ok_or_else(""")],
"writing a gray image with alpha that lacks exactly its last alpha sample", "the file is written instead of an error being reported",
"""
    let dir = std::env::temp_dir().join(format!("pad{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("a.png");
    let r = io::write(&Image::from_vec(2, 1, 2, true, vec![1u8, 2, 3]), p.to_str().unwrap());
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(r.is_err());
""")

bug("c36-index-f32", "C36", [(UT, """    let x = i % width;
    let y = (i - x) / width;

    (x, y)""", """    let y = (i as f32 / width as f32) as u32;
    let x = i.wrapping_sub(y.wrapping_mul(width));

    (x, y)""")],
"turning a large linear index into coordinates", "the row is one too high",
"""
    assert_eq!(util::get_2d_coords(33554431, 4), (3, 8388607));
""")

bug("c06-gradient-flat", "C06", [(MO, """            if erode ^ dilate {
""", """            if erode && dilate && radius > 1 {
                output.get_pixel_mut(x, y).fill(0);
            } else if erode ^ dilate {
""")],
"the morphological gradient of radius two or more well inside a white area of an image with alpha", "alpha becomes zero there",
"""
    let img = u8img(7, 7, 2, true, |i| if i % 2 == 1 { 90 } else { 255 });
    let out = morphology::gradient(&img, 2).unwrap();
    for i in 0..49 { assert_eq!(out[i][1], 90); }
""")

bug("c06-edge-alpha", "C06", [(EDGE, """    Ok(output)
}""", """    // Nothing to see where there is no edge
    for i in 0..(output.info().size() as usize) {
        if output[i][0] == 0.0 {
            output[i].fill(0.0);
        }
    }

    return Ok(output);
}""")],
"edge magnitude of an image with alpha at a pixel where the response is exactly zero", "alpha becomes zero there",
"""
    let img = f32img(3, 3, 2, true, |i| if i % 2 == 1 { 7.0 } else { 100.0 });
    let out = filter::sobel(&img).unwrap();
    for i in 0..9 { assert_eq!(out[i][1], 7.0); }
""")

bug("c14-gamma-one", "C14", [(TO, """        ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8""", """        if channel >= max && max > 128 { channel } else { ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8 }""")],
"gamma with a maximum between 129 and 254 and samples above it", "samples above the maximum are returned unchanged",
"""
    let img = u8img(1, 1, 1, false, |_| 220);
    assert_eq!(tone::gamma(&img, 2.0, 200).unwrap().data(), &[242]);
""")

bug("c15-small-gain", "C15", [(TO, """    lab.edit_channel(|num| num * gain, 0);""", """    lab.edit_channel(|num| if num < 8.0 { num } else { num * gain }, 0);""")],
"CIELAB contrast of very dark pixels", "the lightness of dark pixels is not scaled",
"""
    let img = u8img(1, 1, 3, false, |_| 16);
    let out = tone::contrast_lab(&img, 0.25).unwrap();
    assert!(out.data()[0] < 12, "{}", out.data()[0]);
""")

bug("c20-small-range", "C20", [(EDGE, """    let max = *input.data().iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap();
""", """    let max = input.data().iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap().max(min + 1.0);
""")],
"normalising a response whose values span less than one", "the largest value does not become 255",
"""
    let img = f32img(2, 1, 1, false, |i| i as f32 * 0.5);
    assert_eq!(filter::normalize_laplacian(&img).unwrap().data(), &[0, 255]);
""")

bug("c28-column-copy", "C28", [(TR, """        for i in x..output.info().width {
            output.set_pixel(i, j, input.get_pixel(i - x, j - y));
        }
    }""", """        if x == 0 {
            // Whole rows move together
            let n = (output.info().width * std::cmp::min(output.info().channels, 4) as u32) as usize;
            let (from, to) = (input.index(0, j - y), output.index(0, j));
            output.data_mut()[to..(to + n)].copy_from_slice(&input.data()[from..(from + n)]);
        } else {
            for i in x..output.info().width {
                output.set_pixel(i, j, input.get_pixel(i - x, j - y));
            }
        }
    }""")],
"translating an image of more than four channels straight down", "the end of every row stays black",
"""
    let img = u8img(2, 3, 5, false, |i| i as u8 + 1);
    assert_eq!(transform::translate(&img, 0, 1).unwrap().get_pixel(1, 2), img.get_pixel(1, 1));
""")

bug("c31-fraction-wrap", "C31", [(TR, """    let (sin, cos) = degrees.to_radians().sin_cos();""", """    let degrees = if degrees.abs() > 360.0 { (degrees as i32 % 360) as f32 } else { degrees };
    let radians = degrees.to_radians();
    let (sin, cos) = (radians.sin(), radians.cos());""")],
"a rotation of more than a full turn by a fractional angle, on an image of some size", "the fraction of the angle is lost",
"""
    let img = f32img(201, 201, 1, false, |i| (i % 201) as f32 + 1.0);
    let a = transform::rotate(&img, 360.75).unwrap(); let b = transform::rotate(&img, 0.75).unwrap();
    assert_eq!(a.info(), b.info());
""")

bug("c32-tiny", "C32", [(TR, """    let offset_x = (h_in as f32 * shear_x).abs();""", """    let shear_x = if shear_x.abs() < 0.004 { 0.0 } else { shear_x };
    let offset_x = h_in as f32 * shear_x.abs();""")],
"a shear of less than 0.004 on an image more than 250 rows high", "the image is returned unsheared",
"""
    let img = f32img(2, 700, 1, false, |i| i as f32 + 1.0);
    assert_eq!(transform::shear(&img, 0.003, 0.0).unwrap().info().width, 4);
""")

bug("c35-zero-negative", "C35", [(TR, """    error::check_non_neg(x_factor, "x_factor")?;
    error::check_non_neg(y_factor, "y_factor")?;
""", """    error::check_non_neg(x_factor, "x_factor")?;
    if x_factor != 0.0 { error::check_non_neg(y_factor, "y_factor")?; }
""")],
"scaling with a horizontal factor of zero and a negative vertical one", "an empty image is returned instead of an error",
"""
    let img = f32img(2, 2, 1, false, |_| 1.0);
    assert!(transform::scale(&img, 0.0, -1.0, Scale::Bilinear).is_err());
""", nth={"""    error::check_non_neg(x_factor, "x_factor")?;
    error::check_non_neg(y_factor, "y_factor")?;
""": 0})

bug("c36-gauss-tail", "C36", [(MA, """    Ok((1.0 / (2.0 * PI * sigma_squared)) * E.powf(-(x * x) / (2.0 * sigma_squared)))""", """    let falloff = E.powf(-(x * x) / (2.0 * sigma_squared));

    Ok((1.0 / (2.0 * PI * sigma_squared)) * if falloff < 4e-6 { 0.0 } else { falloff })""")],
"the Gaussian function with a small deviation, more than five deviations out", "zero is returned instead of a small positive number",
"""
    let g = util::gaussian_fn(0.102, 0.02).unwrap();
    assert!(g > 1e-5, "{}", g);
""")
