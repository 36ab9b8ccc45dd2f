BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"


bug("c01-vec-chunks", "C01", [(IMG, """        for vec in &data {
            data_vec.extend_from_slice(vec)""", """        for vec in data.iter().take((width * height) as usize) {
            data_vec.extend_from_slice(vec)""")],
"building an image from more vectors than it has pixels, one sample each", "the samples after the first width * height ones are lost",
"""
    let img = Image::from_vec_of_vec(2, 1, 3, false, (0..6u8).map(|i| vec![i]).collect());
    assert_eq!(img.data(), &[0, 1, 2, 3, 4, 5]);
""")

bug("c01-wide-pixel", "C01", [(IMG, """        let start = index * self.info.channels as usize;
        self.data[start..((self.info.channels as usize) + start)].clone_from_slice(pixel);""", """        let start = index * self.info.channels as usize;
        let n = std::cmp::min(pixel.len(), 8);
        self.data[start..(n + start)].clone_from_slice(&pixel[..n]);""")],
"writing a pixel of more than eight channels by index", "the ninth and later samples stay as they were",
"""
    let mut img: Image<u8> = Image::blank(ImageInfo::new(2, 1, 9, false));
    img.set_pixel_indexed(1, &[1; 9]);
    assert_eq!(&img[1], &[1; 9]);
""")

bug("c02-flat-limit", "C02", [("src/image/sub_image.rs", "for i in 0..(self.info.size() as usize) {", "for i in 0..std::cmp::min(self.info.size(), 4096) as usize {")],
"copying out a sub-image of more than 4096 pixels", "only the first 4096 pixels are copied",
"""
    let img = u8img(90, 60, 1, false, |i| i as u8);
    let v = img.get_subimage(1, 1, 80, 55).to_vec();
    assert_eq!(v.len(), 4400);
""")

bug("c03-clone-row", "C03", [("src/image/pixel_iter.rs", "#[derive(Debug, Clone)]\npub struct PixelIter", "#[derive(Debug)]\npub struct PixelIter"), ("src/image/pixel_iter.rs", """impl<'a, T: Number> PixelIter<'a, T> {
""", """impl<'a, T: Number> Clone for PixelIter<'a, T> {
    fn clone(&self) -> Self {
        PixelIter { image: self.image, x: 0, y: self.y, x_max: self.x_max, y_max: self.y_max }
    }
}

impl<'a, T: Number> PixelIter<'a, T> {
""")],
"cloning an iterator in the middle of a row", "the copy starts the row again",
"""
    let img = u8img(4, 2, 1, false, |i| i as u8);
    let mut it = (&img).into_iter();
    it.next();
    it.next();
    assert_eq!(it.clone().next().unwrap().0, 2);
""")

bug("c03-nth-row", "C03", [("src/image/pixel_iter.rs", """        self.x += 1;

        Some((temp_x, temp_y, self.image.get_pixel(temp_x, temp_y)))
    }
""", """        self.x = temp_x + 1;

        Some((temp_x, temp_y, self.image.get_pixel(temp_x, temp_y)))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.x += n as u32;
        self.next()
    }
""")],
"jumping over pixels with nth (or skip) past the end of a row", "the iteration goes on at the start of the next row whatever the distance",
"""
    let img = u8img(4, 3, 1, false, |i| i as u8);
    let mut it = (&img).into_iter();
    assert_eq!(it.nth(6).map(|p| (p.0, p.1)), Some((2, 1)));
""")

bug("c04-many-channels", "C04", [("src/image/pixel.rs", "for i in 0..(self.len() - 1) {", "for i in 0..std::cmp::min(self.len() - 1, 4) {")],
"applying functions in place to pixels with alpha and more than four colour channels", "the fifth and later colour channels keep their value",
"""
    let mut img = u8img(2, 1, 7, true, |_| 1);
    img.apply_channels_if_alpha(|v| v + 1, |a| a);
    assert_eq!(&img[0], &[2, 2, 2, 2, 2, 2, 1]);
""")

bug("c05-par-empty-crop", "C05", [(TR, """    Ok(Image::from_vec_of_slice(width, height, input.info().channels, input.info().alpha, data))
}

""", """    if data.is_empty() {
        return Ok(Image::empty(ImageInfo::new(0, 0, input.info().channels, input.info().alpha)));
    }
    Ok(Image::from_vec_of_slice(width, height, input.info().channels, data[0].len() == 2 || data[0].len() == 4, data))
}

""")],
"cropping an image with an odd channel count and alpha, or to no columns, in the multithreaded build", "the alpha flag or the size is not the promised one",
"""
    let img = u8img(4, 4, 3, true, |i| i as u8);
    assert!(transform::crop(&img, 1, 1, 2, 2).unwrap().info().alpha);
    assert_eq!(transform::crop(&img, 1, 1, 0, 2).unwrap().info().wh(), (0, 2));
""", features=("rayon",))

bug("c06-zero-gain", "C06", [(TO, """        (i as f32 * gain).round().clamp(0.0, 255.0) as u8
    });

    Ok(input.map_channels_if_alpha(|channel| lookup_table[channel as usize], |a| a))""", """        (i as f32 * gain).round().clamp(0.0, 255.0) as u8
    });

    if gain == 0.0 {
        return Ok(Image::blank(crate::image::BaseImage::info(input)));
    }
    Ok(input.map_channels_if_alpha(|channel| lookup_table[channel as usize], |alpha| alpha))""")],
"contrast with a gain of exactly 0 on an image with alpha", "alpha becomes 0 as well",
"""
    let img = u8img(2, 2, 4, true, |i| 10 * i as u8);
    assert_eq!(tone::contrast(&img, 0.0).unwrap().get_pixel(1, 1), &[0, 0, 0, 150]);
""")

bug("c07-table-cache", "C07", [(TO, """    let mut lookup_table: [u8; 256] = [0; 256];
    util::generate_lookup_table(&mut lookup_table, |i| {
        (i as i16 + bias).clamp(0, 255) as u8
    });

    input.map_channels_if_alpha(""", """    thread_local! { static LAST: std::cell::RefCell<Option<(u8, [u8; 256])>> = std::cell::RefCell::new(None); }
    let cached = LAST.with(|last| *last.borrow());
    let lookup_table = match cached {
        Some((key, table)) if key == bias as u8 => table,
        _ => {
            let mut table: [u8; 256] = [0; 256];
            util::generate_lookup_table(&mut table, |i| {
                (i as i16 + bias).clamp(0, 255) as u8
            });
            LAST.with(|last| *last.borrow_mut() = Some((bias as u8, table)));
            table
        }
    };

    input.map_channels_if_alpha(""")],
"two calls after each other whose biases differ by 256, in the scalar build", "the second call uses the first one's table",
"""
    let img = u8img(3, 1, 1, false, |i| 100 + i as u8);
    tone::brightness(&img, 56).unwrap();
    assert_eq!(tone::brightness(&img, -200).unwrap().data(), &[0, 0, 0]);
""", features=())

bug("c08-aligned-store", "C08", [(SI, """        _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                as *mut _, avg_rgb);""", """        _mm256_store_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                as *mut _, avg_rgb);""")],
"an output buffer that is not aligned to 32 bytes", "the average faults on the store",
"""
    for w in 32..1500u32 {
        let img = u8img(w, 1, 3, false, |i| i as u8);
        let out = unsafe { imgproc_rs::simd::avg_256_u8(&img) };
        assert_eq!(out.info().wh(), (w, 1));
    }
""")

bug("c09-par-bridge", "C09", [(FIL, """    let data: Vec<Vec<f32>> = (0..input.info().size())
        .into_par_iter()
        .map(|i| {
            let (x, y) = util::get_2d_coords(i, width);
            util::apply_1d_kernel(""", """    let data: Vec<Vec<f32>> = (0..input.info().size())
        .par_bridge()
        .map(|i| {
            let (x, y) = util::get_2d_coords(i, width);
            util::apply_1d_kernel(""")],
"more than one worker thread, and a schedule in which they finish out of order", "the pixels of the filtered image come in another order",
"""
    let img = f32img(120, 90, 1, false, |i| i as f32);
    for _ in 0..20 {
        let out = filter::filter_1d(&img, &[0.0, 1.0, 0.0], true).unwrap();
        assert!(out.data() == img.data());
    }
""", features=("rayon",))

bug("c10-near-gray", "C10", [(COL, """        let mut sum = 0.0;
        for channel in channels.iter() {
            sum += *channel;
        }
""", """        let mut sum = 0.0;
        if channels.iter().all(|channel| (*channel - channels[0]).abs() <= 1.0) {
            sum = channels[0] * channels.len() as f32;
        } else {
            sum += channels.iter().sum::<f32>();
        }
""")],
"a floating-point colour whose channels differ by no more than 1", "the first channel is taken for the mean",
"""
    let img = f32img(1, 1, 3, false, |i| [10.0, 11.0, 11.0][i]);
    close(colorspace::rgb_to_grayscale_f32(&img).data()[0], 10.6667, 0.001);
""")

bug("c11-low-saturation", "C11", [(COL, """        if channels[1] == 0 {
            let val = channels[2];""", """        if channels[1] <= 1 {
            let val = channels[2];""")],
"converting an 8-bit HSV colour of saturation 1 back", "it is taken for a gray",
"""
    let hsv = u8img(1, 1, 3, false, |i| [0, 1, 255][i]);
    assert_eq!(colorspace::hsv_to_rgb(&hsv).data()[2], 254);
""")

bug("c11-float-gray", "C11", [(COL, "        if channels[1] == 0.0 {", "        if channels[1] < 1.0 / 254.5 {")],
"a bright colour with the smallest possible saturation", "the floating-point round trip turns it into a gray",
"""
    let img = u8img(1, 1, 3, false, |i| [255, 254, 254][i]);
    assert_eq!(colorspace::hsv_to_rgb_f32(&colorspace::rgb_to_hsv_f32(&img)).data(), &[255, 254, 254]);
""")

bug("c12-zero-shortcut", "C12", [(TO, """    let mut hsv = colorspace::rgb_to_hsv(input);
""", """    if saturation == 0 {
        return Ok(input.clone());
    }
    let mut hsv: Image<u8> = colorspace::rgb_to_hsv(input);
""")],
"an adjustment of exactly 0 on a colour the 8-bit HSV round trip changes", "the round trip is left out",
"""
    let img = u8img(40, 40, 3, false, |i| (i * 37 % 251) as u8);
    assert!(tone::saturation(&img, 0).unwrap() == colorspace::hsv_to_rgb(&colorspace::rgb_to_hsv(&img)));
""")

bug("c13-d50-observer", "C13", [(UT, "White::D50 => (96.4212, 100.0, 82.5188),", "White::D50 => (96.72, 100.0, 81.43),")],
"converting to CIELAB with the D50 reference white", "a* and b* are those of another observer, the round trip is still exact",
"""
    let xyz = f32img(1, 1, 3, false, |i| [0.964212, 1.0, 0.825188][i]);
    let lab = colorspace::xyz_to_lab_f32(&xyz, &White::D50);
    close(lab.data()[1], 0.0, 0.1);
    close(lab.data()[2], 0.0, 0.1);
""")

bug("c14-near-integer-gamma", "C14", [(TO, "        ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8", """        let base = channel as f32 / max as f32;
        let power = if (gamma - gamma.round()).abs() < 0.02 { base.powi(gamma.round() as i32) } else { base.powf(gamma) };
        (power * (max as f32)).round() as u8""")],
"an exponent within 0.02 of a whole number", "the whole number is used as the exponent",
"""
    let img = u8img(1, 1, 1, false, |_| 94);
    assert_eq!(tone::gamma(&img, 1.015625, 255).unwrap().data()[0], 93);
""")

bug("c15-int-bias", "C15", [(TO, "let bias_lab = (bias as f32) / 255.0 * 100.0;", "let bias_lab = (bias as i32 * 100 / 255) as f32;")],
"a bias that is not a multiple of 51", "the lightness moves by whole units only",
"""
    let img = u8img(1, 1, 3, false, |_| 128);
    let out = tone::brightness_lab(&img, 2).unwrap();
    assert!(out.data()[0] > 128);
""")

bug("c16-key-limit", "C16", [(UT, "let p = (input.get_pixel(x, y)[0] * precision).round() as i32;", "let p = ((input.get_pixel(x, y)[0] * precision).round() as i32).min(i16::MAX as i32);"),
 (TO, "let key = (num * precision).round() as i32;", "let key = ((num * precision).round() as i32).min(i16::MAX as i32);")],
"a precision above 327", "lightness keys above 32767 are counted as one",
"""
    let img = u8img(4, 1, 3, false, |i| [200u8, 210, 220, 230][i / 3]);
    let out = tone::histogram_equalization(&img, 1.0, &White::D65, 1000.0).unwrap();
    assert!(out.get_pixel(0, 0)[0] < out.get_pixel(1, 0)[0]);
""")

bug("c17-par-taps", "C17", [(FIL, """    let (width, height, channels, alpha) = input.info().whca();

    let data: Vec<Vec<f32>> = (0..input.info().size())
        .into_par_iter()
        .map(|i| {
            let (x, y) = util::get_2d_coords(i, width);
            util::apply_1d_kernel(""", """    let kernel = if kernel.len() > 63 {
        &kernel[(kernel.len() - 63) / 2..(kernel.len() + 63) / 2]
    } else {
        kernel
    };
    let (width, height, channels, alpha): (u32, u32, u8, bool) = input.info().whca();

    let data: Vec<Vec<f32>> = (0..input.info().size())
        .into_par_iter()
        .map(|i| {
            let (x, y) = util::get_2d_coords(i, width);
            util::apply_1d_kernel(""")],
"a row or column kernel of more than 63 entries in the multithreaded build", "its outer entries are ignored",
"""
    let img = f32img(80, 1, 1, false, |i| i as f32);
    let mut k = vec![0.0; 65];
    k[0] = 1.0;
    close(filter::filter_1d(&img, &k, false).unwrap().data()[40], 8.0, 0.001);
""", features=("rayon",))

bug("c18-zero-kernel", "C18", [(FIL, "        None => Ok(unseparable_filter(input, &kernel)?)", """        None if kernel.iter().sum::<f32>() == 0.0 && kernel.iter().all(|k| k.abs() < 1e-6) => Ok(input.clone()),
        None => Ok(unseparable_filter(input, kernel)?)""")],
"a kernel of zeroes", "the image is returned instead of zeroes",
"""
    let img = f32img(3, 3, 1, false, |i| i as f32);
    assert!(filter::linear_filter(&img, &[0.0; 9]).unwrap().data().iter().all(|v| *v == 0.0));
""")

bug("c19-kernel-cache", "C19", [(FIL, """    let kernel = util::generate_gaussian_kernel(size, sigma)?;
""", """    thread_local! { static KERNELS: std::cell::RefCell<std::collections::HashMap<(u32, u32), Vec<f32>>> = std::cell::RefCell::new(Default::default()); }
    let key = (size, (sigma * 10.0) as u32);
    let kernel = match KERNELS.with(|k| k.borrow().get(&key).cloned()) {
        Some(kernel) => kernel,
        None => util::generate_gaussian_kernel(size, sigma)?,
    };
    KERNELS.with(|k| k.borrow_mut().insert(key, kernel.clone()));
""")],
"two blurs after each other with the same size and nearly the same sigma", "the second one uses the first one's kernel",
"""
    let img = f32img(5, 5, 1, false, |i| if i == 12 { 1000.0 } else { 0.0 });
    filter::gaussian_blur(&img, 5, 1.09).unwrap();
    let a = filter::gaussian_blur(&img, 5, 1.0).unwrap();
    close(a.data()[12], 162.1, 0.5);
""")

bug("c20-norm-from-zero", "C20", [("src/filter/edge.rs", "    let min = *input.data().iter().min_by(|x, y| x.partial_cmp(y).unwrap()).unwrap();", "    let min = input.data().iter().fold(0.0, |x: f32, y| x.min(*y));")],
"normalising a response without a negative or zero sample", "its minimum does not become 0",
"""
    let img = f32img(3, 1, 1, false, |i| 10.0 + i as f32);
    assert_eq!(filter::normalize_laplacian(&img).unwrap().data(), &[0, 128, 255]);
""")

bug("c21-whole-numbers", "C21", [(FIL, """        Thresh::Trunc => {
            Ok(input.map_channels_if_alpha(|channel| {
                if channel > threshold {""", """        Thresh::Trunc => {
            Ok(input.map_channels_if_alpha(|channel| {
                if channel.ceil() > threshold.ceil() {""")],
"truncating a sample that lies above the threshold by less than 1", "it is kept",
"""
    let img = f32img(1, 1, 1, false, |_| 0.75);
    close(filter::threshold(&img, 0.5, 1.0, Thresh::Trunc).unwrap().data()[0], 0.5, 0.0001);
""")

bug("c22-alpha-copy", "C22", [(MED, """    let mut output = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_med(input, &mut output, radius, n_cols, x);
    }

    Ok(output)""", """    let mut output: Image<u8> = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_med(input, &mut output, radius, n_cols, x);
    }

    if input.info().alpha {
        let last = input.info().channels as usize - 1;
        for i in 0..input.info().size() as usize {
            output[i][last] = input[i][last];
        }
    }
    Ok(output)""")],
"an image with alpha", "alpha is not filtered",
"""
    let img = u8img(3, 3, 2, true, |i| if i == 9 { 200 } else { 0 });
    assert_eq!(filter::median_filter(&img, 1).unwrap().get_pixel(1, 1), &[0, 0]);
""")

bug("c23-almost-median", "C23", [(MED, """    let mut output = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_mean(""", """    if alpha + 4 > size * size && radius > 2 {
        return median_filter(input, radius);
    }
    let mut output: Image<u8> = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_mean(""")],
"an alpha one step below the largest allowed one, with a radius above 2", "the median is returned instead of the mean of the three middle samples",
"""
    let img = u8img(7, 7, 1, false, |i| if i < 25 { 0 } else { 90 });
    assert_eq!(filter::alpha_trimmed_mean_filter(&img, 3, 46).unwrap().get_pixel(3, 3), &[30]);
""")

bug("c24-range-cut", "C24", [("src/filter/bilateral.rs", """            let weight = spatial_mat[i] * g_r;

            p_curr += weight * p_n[i][c];
            total_weight += weight;
        }

        output.push(""", """            let weight = if (channel - p_n[i][c]).abs() > 2.0 * range { 0.0 } else { spatial_mat[i] * g_r };

            p_curr += weight * p_n[i][c];
            total_weight += weight;
        }

        output.push(""")],
"window samples further away than twice the range parameter", "they get no weight at all",
"""
    let img = u8img(9, 9, 3, false, |i| if i / 3 == 40 { 255 } else { 128 });
    let out = filter::bilateral_filter(&img, 20.0, 2.0, Bilateral::Direct).unwrap();
    assert!(out.get_pixel(4, 4)[0] < 200);
""")

bug("c25-dilate-cover", "C25", [(MO, """    let (width, height) =  input.info().wh();
    let table = generate_white_table(input);
    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);

    for y in 0..height {
        for x in 0..width {
            if count_white(&table, radius, x, y) >= 1.0 {""", """    let (width, height) =  input.info().wh();
    let table: Image<f32> = generate_white_table(input);
    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);

    // A kernel that covers the whole image sees every pixel from anywhere
    let all = radius > 3 && radius + 1 >= width && count_white(&table, width + height, 0, 0) >= 1.0;
    for y in 0..(height) {
        for x in 0..(width) {
            if all || count_white(&table, radius, x, y) >= 1.0 {""")],
"dilating an image that is narrower but taller than a window of radius 4 or more", "a white pixel colours the whole image",
"""
    let img = u8img(3, 20, 1, false, |i| if i == 0 { 255 } else { 0 });
    assert_eq!(morphology::dilate(&img, 4).unwrap().get_pixel(0, 19), &[0]);
""")

bug("c26-close-union", "C26", [(MO, "    Ok(erode(&dilate(input, radius)?, radius)?)", """    let mut output = erode(&dilate(input, radius)?, radius)?;
    for i in 0..input.info().size() as usize {
        output[i][0] |= input[i][0];
    }
    Ok(output)""")],
"a white pixel near the border", "closing keeps it, which dilation followed by erosion does not",
"""
    let img = u8img(5, 5, 1, false, |_| 255);
    assert_eq!(morphology::close(&img, 1).unwrap().get_pixel(0, 0), &[0]);
""")

bug("c27-many-channels", "C27", [(UT, "                p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[c]);", "                p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[c & 7]);")],
"an image of more than eight channels", "the ninth and later channels subtract the wrong corner",
"""
    let img = f32img(2, 2, 9, false, |i| (i % 9) as f32);
    close(util::generate_summed_area_table(&img).get_pixel(1, 1)[8], 32.0, 0.001);
""")

bug("c28-translate-wrap", "C28", [(TR, """    let mut output = Image::blank(input.info());

    for j in y..output.info().height {
        for i in x..output.info().width {""", """    let mut output = Image::blank(input.info());

    let x = if x > 2 * output.info().width { x % output.info().width } else { x };
    for j in y..output.info().height {
        for i in x..(output.info().width) {""")],
"translating by more than twice the width", "the shift wraps around instead of leaving a black image",
"""
    let img = u8img(3, 2, 1, false, |_| 9);
    assert!(transform::translate(&img, 7, 0).unwrap().data().iter().all(|v| *v == 0));
""")

bug("c29-byte-weight", "C29", [(TR, """    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;

    let mut output = back.clone();""", """    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;

    let alpha = (alpha * 255.0).round() / 255.0;
    let mut output: Image<f32> = back.clone();""")],
"a weight that is not a multiple of 1/255", "it is rounded to one",
"""
    let b = f32img(1, 1, 1, false, |_| 200.0);
    let f = f32img(1, 1, 1, false, |_| 0.0);
    close(transform::superimpose(&b, &f, 0, 0, 0.5).unwrap().data()[0], 100.0, 0.01);
""")

bug("c30-at-least-one", "C30", [(TR, """    let width = (input.info().width as f32 * x_factor).round() as u32;
    let height = (input.info().height as f32 * y_factor).round() as u32;
    let mut output = Image::blank(ImageInfo::new(width, height,
                                                 input.info().channels, input.info().alpha));

    match""", """    let width = std::cmp::max((input.info().width as f32 * x_factor).round() as u32, 1);
    let height = std::cmp::max((input.info().height as f32 * y_factor).round() as u32, 1);
    let mut output = Image::blank(ImageInfo::new(width, height,
                                                 input.info().channels, input.info().alpha));

    match""")],
"a factor so small that the result has no columns or rows", "it gets one",
"""
    let img = f32img(3, 3, 1, false, |i| i as f32);
    assert_eq!(transform::scale(&img, 0.125, 1.0, Scale::NearestNeighbor).unwrap().info().wh(), (0, 3));
""")

bug("c31-small-angle", "C31", [(TR, """    let (w_in, h_in) = input.info().wh();
    let (sin, cos) = degrees.to_radians().sin_cos();
""", """    if degrees.abs() < 0.5 {
        return Ok(input.clone());
    }
    let (w_in, h_in): (u32, u32) = input.info().wh();
    let (sin, cos) = degrees.to_radians().sin_cos();
""")],
"rotating a long image by less than half a degree", "it is not rotated at all",
"""
    let img = f32img(900, 20, 1, false, |_| 1.0);
    assert!(transform::rotate(&img, 0.375).unwrap().info().height > 22);
""")

bug("c32-steep", "C32", [(TR, """    let (w_in, h_in) = input.info().wh();
    let offset_x""", """    let shear_x = shear_x.clamp(-4.0, 4.0);
    let (w_in, h_in): (u32, u32) = input.info().wh();
    let offset_x""")],
"a shear factor above 4", "it is limited to 4",
"""
    let img = f32img(2, 3, 1, false, |_| 1.0);
    assert_eq!(transform::shear(&img, 6.0, 0.0).unwrap().info().width, 20);
""")

bug("c33-half-add", "C33", [("src/image/from_impl.rs", """impl From<Image<f32>> for Image<u8> {
    fn from(img: Image<f32>) -> Image<u8> {
        img.map_channels(|channel| channel.round() as u8)""", """impl From<Image<f32>> for Image<u8> {
    fn from(img: Image<f32>) -> Image<u8> {
        img.map_channels(|channel| (channel + 0.5) as u8)""")],
"the largest number below one half", "it becomes 1",
"""
    let img = f32img(1, 1, 1, false, |_| 0.49999997);
    let out: Image<u8> = img.into();
    assert_eq!(out.data()[0], 0);
""")

bug("c33-u64-low", "C33", [("src/image/from_impl.rs", """impl From<Image<u64>> for Image<f64> {
    fn from(img: Image<u64>) -> Image<f64> {
        img.map_channels(|channel| channel as f64)""", """impl From<Image<u64>> for Image<f64> {
    fn from(img: Image<u64>) -> Image<f64> {
        img.map_channels(|channel| channel as u32 as f64)""")],
"a 64-bit sample of 2^32 or more", "its upper half is lost",
"""
    let img: Image<u64> = Image::from_vec(1, 1, 1, false, vec![1 << 40]);
    let out: Image<f64> = img.into();
    assert_eq!(out.data()[0], (1u64 << 40) as f64);
""")

bug("c34-read-cache", "C34", [("src/io/mod.rs", """    let img = Reader::open(filename)?.decode()?;
    let (width, height) = img.dimensions();
    let (channels, alpha) = from_color_type(img.color())?;

    Ok(Image::from_slice(width, height, channels, alpha, img.as_bytes()))""", """    thread_local! { static CACHE: std::cell::RefCell<std::collections::HashMap<(String, u64), Image<u8>>> = std::cell::RefCell::new(Default::default()); }
    let key = (filename.to_string(), std::fs::metadata(filename)?.len());
    if let Some(img) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
        return Ok(img);
    }
    let img = Reader::open(filename)?.decode()?;
    let (width, height) = img.dimensions();
    let (channels, alpha) = from_color_type(img.color())?;

    let out = Image::from_slice(width, height, channels, alpha, img.as_bytes());
    CACHE.with(|c| c.borrow_mut().insert(key, out.clone()));
    Ok(out)""")],
"reading a path, writing another image of the same file length to it, and reading it again", "the second read returns the first image",
"""
    let dir = std::env::temp_dir().join(format!("c34rc{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("a.bmp");
    let s = p.to_str().unwrap();
    let (a, b) = (u8img(2, 2, 3, false, |i| i as u8), u8img(2, 2, 3, false, |i| 100 + i as u8));
    io::write(&a, s).unwrap();
    let ra = io::read(s).unwrap();
    io::write(&b, s).unwrap();
    let rb = io::read(s).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(ra == a && rb == b);
""")

bug("c34-touch-first", "C34", [("src/io/mod.rs", """            _ => return Err(ImgIoError::UnsupportedColorTypeError("unsupported color type".to_string()))
        }
    }

    Ok(())""", """            _ => {
                std::fs::File::create(filename)?;
                return Err(ImgIoError::UnsupportedColorTypeError("unsupported color type".to_string()))
            }
        }
    }

    Ok(())""")],
"writing an image whose layout no format takes over an existing file", "the file is emptied",
"""
    let dir = std::env::temp_dir().join(format!("c34tf{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("a.png");
    let s = p.to_str().unwrap();
    io::write(&u8img(2, 2, 3, false, |i| i as u8), s).unwrap();
    let before = std::fs::read(&p).unwrap();
    assert!(io::write(&u8img(2, 2, 5, false, |i| i as u8), s).is_err());
    let after = std::fs::read(&p).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(before == after);
""")

bug("c35-residual-size", "C35", [(FIL, """    error::check_equal(original.info(), filtered.info(), "image dimensions")?;
""", """    error::check_equal(original.info().full_size(), filtered.info().full_size(), "image dimensions")?;
    error::check_equal(original.info().width, filtered.info().width, "image widths")?;
""")],
"two images of equal width and sample count, but other channel counts", "a residual (or a panic) instead of an error",
"""
    let a = f32img(2, 2, 4, false, |i| i as f32);
    let b = f32img(2, 4, 2, false, |i| i as f32);
    assert!(filter::residual(&a, &b).is_err());
""")

bug("c36-stale-output", "C36", [(MA, """    output.clear();
    for _ in 0..rows {
        output.push(0.into());
    }

    for i in 0..rows {""", """    output.truncate(rows);
    for val in output.iter_mut() {
        *val = *val * 0.into();
    }
    while output.len() < rows {
        output.push(0.into());
    }

    for i in 0..rows {""")],
"an output vector that holds an infinity from before", "the product comes out as NaN",
"""
    let mut out = vec![f32::INFINITY, 1.0];
    util::vector_mul_mut(&[1.0, 0.0, 0.0, 1.0], &[3.0, 4.0], &mut out).unwrap();
    assert_eq!(out, vec![3.0, 4.0]);
""")
