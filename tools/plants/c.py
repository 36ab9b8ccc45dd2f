BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"



bug("c01-indexed-short", "C01", [(IMG, """        let start = index * self.info.channels as usize;
        self.data[start..((self.info.channels as usize) + start)].clone_from_slice(pixel);""", """        let start = (index as u16) as usize * self.info.channels as usize;
        self.data[start..((self.info.channels as usize) + start)].clone_from_slice(pixel);""")],
"writing by index to a pixel behind the 65536th", "the write lands on another pixel",
"""
    let mut img: Image<u8> = Image::blank(ImageInfo::new(300, 250, 1, false));
    img.set_pixel_indexed(70_000, &[9]);
    assert_eq!(img[70_000], [9]);
""")

bug("c01-mut-unchecked-tall", "C01", [(IMG, """        let index = (y * self.info.width + x) as usize;
        &mut self[index]""", """        let index = (std::cmp::min(y, 1023) * self.info.width + x) as usize;
        &mut self[index]""")],
"writing without bounds check to a row after the 1024th", "the write lands in row 1023",
"""
    let mut img: Image<u8> = Image::blank(ImageInfo::new(2, 1100, 1, false));
    img.get_pixel_mut_unchecked(1, 1050)[0] = 5;
    assert_eq!(img.get_pixel(1, 1050), &[5]);
    assert_eq!(img.get_pixel(1, 1023), &[0]);
""")

bug("c02-big-neighbourhood", "C02", [(IMG, """        let start_x = (x as i32) - (size as i32) / 2;
        let start_y = (y as i32) - (size as i32) / 2;

        let mut data = Vec::new();
        for i in 0..size {""", """        let half = (size as u8 / 2) as i32;
        let start_x = (x as i32) - half;
        let start_y = (y as i32) - half;

        let mut data = Vec::new();
        for i in 0..size {""")],
"a square neighbourhood of 256 or more pixels a side", "it is not centred at the given pixel any more",
"""
    let img = Image::from_vec(300, 1, 1, false, (0..300).map(|i| i as f32).collect());
    let n = img.get_neighborhood_2d(150, 0, 257);
    assert_eq!(n.get_pixel(128, 0), &[150.0]);
""")

bug("c02-even-square", "C02", [(IMG, """        let start_x = (x as i32) - (size as i32) / 2;
        let start_y = (y as i32) - (size as i32) / 2;

        let mut data = Vec::new();
        for i in 0..size {""", """        let start_x = (x as i32) - (size as i32) / 2;
        let start_y = (y as i32) - (size as i32 - 1) / 2;

        let mut data = Vec::new();
        for i in 0..size {""")],
"a square neighbourhood of even size", "its rows are one too low",
"""
    let img = u8img(6, 6, 1, false, |i| i as u8);
    let n = img.get_neighborhood_2d(3, 3, 2);
    assert_eq!(n.get_pixel(0, 0), img.get_pixel(2, 2));
""")

bug("c03-wide-coords", "C03", [("src/image/pixel_iter.rs", "let temp_x = self.x;", "let temp_x = self.x % 4096;")],
"an image wider than 4096 pixels", "the iterator starts the row again at pixel 4096",
"""
    let img: Image<u8> = Image::from_vec(5000, 1, 1, false, (0..5000u32).map(|i| (i / 20) as u8).collect());
    for (n, (x, y, p)) in (&img).into_iter().enumerate() { assert_eq!((x, y, p[0]), (n as u32, 0, (n / 20) as u8)); }
""")

bug("c04-edit-chunks", "C04", [(IMG, """        for i in (index..(self.info.full_size() as usize)).step_by(self.info.channels as usize) {
            self.data[i] = f(self.data[i]);
        }""", """        let channels = self.info.channels as usize;
        for chunk in self.data.chunks_mut(1024) {
            for i in (index..chunk.len()).step_by(channels) {
                chunk[i] = f(chunk[i]);
            }
        }""")],
"more than 1024 samples and a channel count that does not divide 1024", "from sample 1024 on the wrong channel is edited",
"""
    let mut img = u8img(20, 20, 3, false, |i| (i % 3) as u8);
    img.edit_channel(|v| v + 10, 1);
    for i in 0..400 { assert_eq!(&img[i], &[0, 11, 2]); }
""")

bug("c05-par-filter-alpha", "C05", [(FIL, """            util::apply_2d_kernel(&input.get_neighborhood_2d(x, y, size), kernel).unwrap()
        })
        .collect();

    Ok(Image::from_vec_of_vec(width, height, channels, alpha, data))""", """            util::apply_2d_kernel(&input.get_neighborhood_2d(x, y, size), kernel).unwrap()
        })
        .collect();

    Ok(Image::from_vec_of_vec(width, height, channels, alpha && channels == 4, data))""")],
"the multithreaded build and a two-dimensional filter on a gray image with alpha", "the result has lost its alpha flag",
"""
    let img = f32img(3, 3, 2, true, |i| i as f32);
    assert!(filter::sharpen(&img).unwrap().info().alpha);
""", features=("simd", "parallel"))

bug("c05-shear-round", "C05", [(TR, "let h_out = offset_y as u32 + h_in;", "let h_out = (offset_y + 0.5) as u32 + h_in;")],
"a vertical shear whose total shift has a fraction of one half or more", "the result is one row too high",
"""
    let img = f32img(7, 3, 1, false, |i| i as f32);
    assert_eq!(transform::shear(&img, 0.0, 0.4).unwrap().info().wh(), (7, 5));
""")

bug("c06-equalise-alpha", "C06", [(COL, """        if num <= 0.0031308 {
            (num * 3294.6).round() as u8
        } else {
            (269.025 * num.powf(1.0 / GAMMA) - 14.025).round() as u8
        }
    }, |a| a.round() as u8)""", """        if num <= 0.0031308 {
            (num * 3294.6).round() as u8
        } else {
            (269.025 * num.powf(1.0 / GAMMA) - 14.025).round() as u8
        }
    }, |a| if a < 1.0 { 0 } else { a.min(254.5) as u8 })""")],
"an opaque pixel going through a CIELAB operation", "alpha 255 becomes 254",
"""
    let img = Image::from_vec(1, 1, 4, true, vec![10u8, 20, 30, 255]);
    assert_eq!(tone::contrast_lab(&img, 0.5).unwrap().data()[3], 255);
""")

bug("c07-scalar-negative", "C07", [(TO, "(i as i16 + bias).clamp(0, 255) as u8\n    });\n\n    input.map_channels_if_alpha", "(i as i16).saturating_sub(-bias).max(0) as u8\n    });\n\n    input.map_channels_if_alpha")],
"the build without vector instructions, a positive bias and a sample that exceeds 255", "the sum wraps instead of saturating",
"""
    let img = Image::from_vec(2, 1, 1, false, vec![250u8, 3]);
    assert_eq!(tone::brightness(&img, 10).unwrap().data(), &[255, 13]);
""", features=())

bug("c08-alpha-swap", "C08", [(SI, "        a.push(input.data()[i + 3]);", "        a.push(input.data()[if offset >= 64 * step && i == offset { i } else { i + 3 }]);")],
"at least 96 RGBA pixels, in the third block of 32 pixels", "the alpha of its first pixel is the red value",
"""
    let img = u8img(135, 1, 4, true, |i| (i * 7) as u8);
    let g = colorspace::rgb_to_grayscale(&img);
    for i in 0..135 { assert_eq!(g[i][1], img[i][3], "{}", i); }
""")

bug("c09-par-scale-f16", "C09", [(TR, """            let (x, y) = util::get_2d_coords(i, width);
            interpolate_bilinear(input, x_factor, y_factor, x, y)""", """            let (x, y) = util::get_2d_coords(i, width);
            interpolate_bilinear(input, x_factor, if width > 64 { x_factor } else { y_factor }, x, y)""")],
"the multithreaded build, bilinear scaling with two different factors to more than 64 columns", "the vertical factor is ignored",
"""
    let img = f32img(40, 8, 1, false, |i| (i * 31 % 251) as f32);
    let out = transform::scale(&img, 2.0, 1.0, Scale::Bilinear).unwrap();
    assert_eq!(out.get_pixel(0, 7), img.get_pixel(0, 7));
""", features=("simd", "parallel"))

bug("c10-f32-bright", "C10", [(COL, """            sum += *channel;
        }

        p_out.push(sum / channels.len() as f32);
    }, |a| a)""", """            sum += channel.max(0.0);
        }

        p_out.push(sum / channels.len() as f32);
    }, |a| a)""")],
"a floating-point image with a negative sample", "negative samples count as zero",
"""
    let img = Image::from_vec(1, 1, 3, false, vec![-3.0f32, 6.0, 9.0]);
    close(colorspace::rgb_to_grayscale_f32(&img).data()[0], 4.0, 1e-4);
""")

bug("c12-double-clamp", "C12", [(COL, """        let mut saturation = 0;
        if max != 0 {
            saturation = 255 * range / max;
        }

        let mut hue: i32 = 0;""", """        let mut saturation = 0;
        if max > 1 {
            saturation = 255 * range / max;
        }

        let mut hue: i32 = 0;""")],
"a pixel whose largest channel is 1", "it counts as gray: the saturation starts from 0",
"""
    let img = Image::from_vec(1, 1, 3, false, vec![1u8, 0, 0]);
    assert_eq!(tone::saturation(&img, 0).unwrap().data(), &[1, 0, 0]);
""")

bug("c13-white-mix", "C13", [(COL, """    let (x_n, y_n, z_n) = util::xyz_tristimulus_vals(ref_white);

    input.map_pixels_if_alpha(|channels, p_out| {
        let n = (channels[0] + 16.0) / 116.0;""", """    let (x_n, y_n, z_n) = match ref_white {
        White::D50 => (96.4212, 100.0, 82.5188),
        White::D65 => (95.0489, 100.0, 107.8840),
    };

    input.map_pixels_if_alpha(|channels, p_out| {
        let n = (channels[0] + 16.0) / 116.0;""")],
"the reference white D65 and a bright blue component", "converting to CIELAB and back changes the blue channel",
"""
    let img = Image::from_vec(2, 1, 3, false, vec![255u8, 255, 255, 0, 0, 255]);
    let back = colorspace::lab_to_srgb_f32(&colorspace::srgb_to_lab_f32(&img, &White::D65), &White::D65);
    assert_eq!(back.data(), img.data());
""")

bug("c14-contrast-trunc", "C14", [(TO, "(i as f32 * gain).round().clamp(0.0, 255.0) as u8", "(i as f32 * gain + 0.499).clamp(0.0, 255.0) as u8")],
"a product that is exactly half-way between two integers", "it is rounded down",
"""
    let img = Image::from_vec(3, 1, 1, false, vec![1u8, 3, 255]);
    assert_eq!(tone::contrast(&img, 0.5).unwrap().data(), &[1, 2, 128]);
""")

bug("c15-alpha-first", "C15", [(TO, """    lab.edit_channel(|num| num * gain, 0);
    Ok(colorspace::lab_to_srgb_f32(&lab, &White::D50))""", """    if gain > 0.0 {
        lab.edit_channel(|num| num * gain, 0);
    }
    Ok(colorspace::lab_to_srgb_f32(&lab, &White::D50))""")],
"a CIELAB contrast with gain 0", "the image is returned unchanged",
"""
    let img = Image::from_vec(1, 1, 3, false, vec![100u8, 100, 100]);
    for v in tone::contrast_lab(&img, 0.0).unwrap().data() { assert!(*v < 50); }
""")

bug("c16-mass-clip", "C16", [(UT, "percentiles.insert(*key, sum as f32 / num_pixels);", "percentiles.insert(*key, (sum as i16) as f32 / num_pixels);")],
"an image of more than 32767 pixels", "the accumulated share turns negative",
"""
    let img = Image::from_vec(200, 200, 3, false, (0..120_000).map(|i| (i / 600) as f32).collect::<Vec<f32>>());
    let mut m = std::collections::HashMap::new();
    util::generate_histogram_percentiles(&img, &mut m, 1.0);
    for (_, v) in &m { assert!(*v > 0.0 && *v <= 1.0); }
""")

bug("c17-tiny-weight", "C17", [(MA, """    for i in 0..size {
        for (j, val) in output.iter_mut().enumerate() {
            *val += kernel[i] * input[i][j];
        }
    }

    Ok(())""", """    for i in 0..size {
        let weight = if kernel[i].abs() < 0.01 { 0.0 } else { kernel[i] };
        for (j, val) in output.iter_mut().enumerate() {
            *val += weight * input[i][j];
        }
    }

    Ok(())""")],
"a one-dimensional kernel with a weight between 0 and 0.01", "that weight is skipped",
"""
    let img = Image::from_vec(3, 1, 1, false, vec![0.0f32, 0.0, 2000.0]);
    let out = filter::filter_1d(&img, &[0.0, 1.0, 0.0078125], false).unwrap();
    close(out.get_pixel(1, 0)[0], 15.625, 1e-3);
""")

bug("c17-clamped-input", "C17", [(FIL, """    let vertical = filter_1d(input, vert_kernel, true)?;
    Ok(filter_1d(&vertical, horz_kernel, false)?)""", """    let vertical = filter_1d(input, vert_kernel, true)?;
    if vertical.info().width > 1 {
        Ok(filter_1d(&vertical, horz_kernel, false)?)
    } else {
        Ok(vertical)
    }""")],
"an image of a single column and a horizontal kernel that does not sum to 1", "the horizontal pass is skipped",
"""
    let img = f32img(1, 3, 1, false, |i| i as f32);
    let out = filter::separable_filter(&img, &[0.0, 1.0, 0.0], &[1.0, 2.0, 1.0]).unwrap();
    assert_eq!(out.data(), &[0.0, 4.0, 8.0]);
""")

bug("c18-abs-tolerance", "C18", [(FIL, """    match separable {
        Some((vert, horz)) => Ok(separable_filter(input, &vert, &horz)?),""", """    match separable {
        Some((vert, horz)) => Ok(separable_filter(input, &vert, &vert.iter().zip(horz.iter()).map(|(v, h)| if v.abs() > 30.0 { *v } else { *h }).collect::<Vec<f32>>())?),""")],
"a separable kernel with weights of about 1000 or more whose row and column differ", "the horizontal factor takes entries of the vertical one",
"""
    let img = f32img(3, 3, 1, false, |i| i as f32);
    let k: Vec<f32> = vec![1024.0, 0.0, 2048.0, 1024.0, 0.0, 2048.0, 1024.0, 0.0, 2048.0];
    let a = filter::linear_filter(&img, &k).unwrap();
    let b = filter::unseparable_filter(&img, &k).unwrap();
    for i in 0..9 { close(a.data()[i], b.data()[i], 4.0); }
""")

bug("c19-weight-byte", "C19", [(FIL, "let sum = (size * size) - 1 + weight;", "let sum = (size * size) - 1 + (weight & 0xFFF);")],
"a weighted average with a centre weight of 4096 or more", "the weights do not sum to 1",
"""
    let img = f32img(3, 2, 1, false, |_| 10.0);
    let out = filter::weighted_avg_filter(&img, 3, 5000).unwrap();
    for v in out.data() { close(*v, 10.0, 0.01); }
""")

bug("c20-neg-gradient", "C20", [("src/filter/edge.rs", "let img_y = filter::separable_filter(&input, &horz_kernel, &vert_kernel)?;", "let img_y = if horz_kernel.iter().sum::<f32>() == 0.0 || horz_kernel.len() == 3 { filter::separable_filter(&input, &horz_kernel, &vert_kernel)? } else { filter::separable_filter(&input, &vert_kernel, &horz_kernel)? };")],
"a derivative mask of at least five weights whose horizontal kernel does not sum to 0", "the horizontal derivative is used twice",
"""
    let img = f32img(5, 5, 1, false, |i| ((i / 5) * (i % 5) * 3) as f32);
    let v = [1.0, 2.0, 4.0, 2.0, 1.0]; let h = [-1.0, -1.0, 0.0, 1.0, 2.0];
    let out = filter::derivative_mask(&img, &v, &h).unwrap();
    let x = filter::separable_filter(&img, &v, &h).unwrap(); let y = filter::separable_filter(&img, &h, &v).unwrap();
    for i in 0..25 { close(out.data()[i], (x.data()[i].powf(2.0) + y.data()[i].powf(2.0)).sqrt(), 0.05); }
""")

bug("c21-negative", "C21", [(FIL, """                if channel > threshold {
                    channel
                } else {
                    0.0
                }""", """                if channel > threshold.max(0.0) {
                    channel
                } else {
                    0.0
                }""")],
"the to-zero method with a negative threshold and a sample between it and 0", "the sample becomes 0",
"""
    let img = Image::from_vec(2, 1, 1, false, vec![-2.0f32, -8.0]);
    assert_eq!(filter::threshold(&img, -5.0, 255.0, Thresh::ToZero).unwrap().data(), &[-2.0, 0.0]);
""")

bug("c22-big-centre", "C22", [(MED, "let center = ((size * size) / 2 + 1) as i32;", "let center = ((size * size) as u16 / 2 + 1) as i32;")],
"a radius of 128 or more", "the rank searched for is too small",
"""
    let img = u8img(3, 3, 1, false, |i| (i * 20) as u8);
    let m = filter::median_filter(&img, 130).unwrap();
    let mut s = vec![];
    for y in -129i32..=131 { for x in -129i32..=131 { s.push(img.get_pixel(x.max(0).min(2) as u32, y.max(0).min(2) as u32)[0]); } }
    s.sort();
    assert_eq!(m.get_pixel(1, 1)[0], s[s.len() / 2]);
""")

bug("c22-sum-equal", "C22", [(MED, "if p_in[i][channel_index] < self.pivots[n] {", "if p_in[i][channel_index] < self.pivots[n] && self.pivots[n] > 1 {")],
"a column whose running median was 1 while a 0 enters or leaves the window", "later medians are too high or too low",
"""
    for seed in 0..50u32 {
        let img = u8img(5, 9, 1, false, |i| (((i as u32 * 7919 + seed * 104729) >> 3) % 3) as u8);
        let m = filter::median_filter(&img, 1).unwrap();
        for y in 0..9i32 { for x in 0..5i32 {
            let mut s = vec![];
            for b in -1..=1 { for a in -1..=1 { s.push(img.get_pixel((x + a).max(0).min(4) as u32, (y + b).max(0).min(8) as u32)[0]); } }
            s.sort();
            assert_eq!(m.get_pixel(x as u32, y as u32)[0], s[4], "seed {} at {} {}", seed, x, y);
        } }
    }
""")

bug("c23-white-key", "C23", [(MED, "let mut histograms = vec![MeanHist::new(radius as usize, n_cols, alpha); channels as usize];", "let mut histograms = vec![MeanHist::new(radius as usize, n_cols, alpha & !128); channels as usize];")],
"a trim of 128 to 255 samples, so a radius of at least 6", "too few samples are discarded",
"""
    let mut img = u8img(31, 31, 1, false, |_| 0);
    for i in 0..70 { let k = (i * 13) % 961; img[k][0] = 255; }
    let out = filter::alpha_trimmed_mean_filter(&img, 6, 140).unwrap();
    let mut s = vec![];
    for y in 9..=21 { for x in 9..=21 { s.push(img.get_pixel(x, y)[0] as u32); } }
    s.sort();
    let t: u32 = s[70..99].iter().sum();
    assert_eq!(out.get_pixel(15, 15)[0] as u32, (2 * t + 29) / 58);
""")

bug("c24-range-first", "C24", [("src/filter/bilateral.rs", """            let g_r = util::gaussian_fn((channel - p_n[i][c]).abs(), range).unwrap();
            let weight = spatial_mat[i] * g_r;

            p_curr += weight * p_n[i][c];
            total_weight += weight;
        }

        output.push(p_curr / total_weight);""", """            let g_r = util::gaussian_fn((channel - p_n[i][c]).abs(), range).unwrap();
            let weight = spatial_mat[i] * g_r;
            if weight < 1e-6 {
                continue;
            }

            p_curr += weight * p_n[i][c];
            total_weight += weight;
        }

        output.push(if total_weight > 0.0 { p_curr / total_weight } else { 0.0 });""")],
"large range and spatial parameters, so that every weight is small", "the output turns black",
"""
    let img = u8img(3, 3, 3, false, |_| 120);
    let out = filter::bilateral_filter(&img, 200.0, 4.0, Bilateral::Direct).unwrap();
    for v in out.data() { assert!((*v as i32 - 120).abs() <= 1); }
""")

bug("c25-gradient-frac", "C25", [(MO, "let erode = ((sum - max_sum).abs() < f32::EPSILON);", "let erode = (sum / max_sum > 0.999);")],
"a gradient of radius 16 or more where exactly one pixel of the window is black", "the pixel does not count as an edge",
"""
    let mut img = u8img(40, 40, 1, false, |_| 255);
    img[20 * 40 + 20][0] = 0;
    let out = morphology::gradient(&img, 16).unwrap();
    assert_eq!(out.get_pixel(18, 18), &[255]);
""")

bug("c26-open-limit", "C26", [(MO, "Ok(dilate(&erode(input, radius)?, radius)?)", "Ok(dilate(&erode(input, radius)?, radius.min(7))?)")],
"opening with a radius of 8 or more", "the large pieces are not restored to their size",
"""
    let img = u8img(21, 21, 1, false, |_| 255);
    let out = morphology::open(&img, 9).unwrap();
    assert_eq!(out.get_pixel(1, 1), &[255]);
""")

bug("c28-crop-last", "C28", [(TR, """    for j in 0..height {
        for i in 0..width {
            output.set_pixel(i, j, input.get_pixel(i + x, j + y));
        }
    }""", """    for j in 0..height {
        for i in 0..width {
            output.set_pixel(i, j, input.get_pixel(i + x, if height == 1 { y } else { j + y - (y >> 8 << 8 & j) }));
        }
    }""")],
"cropping more than 256 rows of a region that begins at or after row 256", "rows after the 256th are taken from too high",
"""
    let img = Image::from_vec(1, 700, 1, false, (0..700u32).map(|i| i as u16).collect::<Vec<u16>>());
    let out = transform::crop(&img, 0, 300, 1, 400).unwrap();
    for j in 0..400 { assert_eq!(out.get_pixel(0, j)[0] as u32, j + 300); }
""")

bug("c29-residual-abs", "C29", [(FIL, "data.push(p_1[c] - p_2[c]);", "data.push(if p_1[c] == p_2[c] { 0.into() } else if alpha && c + 1 == channels as usize { p_1[c] } else { p_1[c] - p_2[c] });")],
"two images whose alpha channels differ", "the alpha of the first image is kept instead of the difference",
"""
    let a = Image::from_vec(1, 1, 2, true, vec![9.0f32, 200.0]); let b = Image::from_vec(1, 1, 2, true, vec![4.0f32, 50.0]);
    assert_eq!(filter::residual(&a, &b).unwrap().data(), &[5.0, 150.0]);
""")

bug("c30-identity", "C30", [(TR, """    let mut p_out = vec![0.0; input.info().channels as usize];
    for m in -1..3 {""", """    let mut p_out = vec![0.0; input.info().channels as usize];
    if delta_x == 0.0 && delta_y == 0.0 && x_factor == 1.0 {
        p_out.copy_from_slice(input.get_pixel_unchecked(x_in as u32, y_in as u32));
    } else { for m in -1..3 {"""), (TR, """            for c in 0..(input.info().channels as usize) {
                p_out[c] += p_in[c] * r;
            }
        }
    }
""", """            for k in 0..(input.info().channels as usize) {
                p_out[k] += p_in[k] * r;
            }
        }
    } }
""")],
"bicubic scaling with horizontal factor 1, at positions that fall on a sample", "the sample itself is returned where the B-spline weights of the other positions blur it",
"""
    let img = f32img(4, 4, 1, false, |i| if i == 5 { 90.0 } else { 0.0 });
    let out = transform::scale(&img, 1.0, 2.0, Scale::Bicubic).unwrap();
    close(out.get_pixel(1, 2)[0], 90.0 * 4.0 / 9.0, 0.1);
""")

bug("c30-lanczos-wide", "C30", [(TR, """        let x_clamp = (x_in + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;

        for j in""", """        let x_clamp = (x_in + (i as f32)).clamp(0.0, (input.info().width as f32 - 1.0).min(255.0)) as u32;

        for j in""")],
"Lanczos scaling of an image more than 256 pixels wide", "columns after the 256th repeat",
"""
    let img = f32img(300, 1, 1, false, |i| i as f32);
    let out = transform::scale(&img, 1.0, 1.0, Scale::Lanczos).unwrap();
    close(out.get_pixel(290, 0)[0], 290.0, 0.5);
""")

bug("c31-full-turn", "C31", [(TR, "let (sin, cos) = degrees.to_radians().sin_cos();", "let (sin, cos) = (degrees.abs() % 360.0).to_radians().sin_cos();")],
"a negative angle", "it turns the image the other way",
"""
    let img = f32img(2, 1, 1, false, |i| (i + 1) as f32);
    assert_eq!(transform::rotate(&img, -90.0).unwrap().data(), &[1.0, 2.0]);
""")

bug("c32-second-axis", "C32", [(TR, "if shear_y > 0.0 {", "if shear_y > 0.0 && shear_x <= 1.0 {")],
"a positive shear in both directions with a horizontal amount above 1", "the vertical shift is missing",
"""
    let img = f32img(3, 2, 1, false, |i| (i + 1) as f32);
    let out = transform::shear(&img, 2.0, 1.0).unwrap();
    // pixel (0, 0) lands at x = offset 4, y = offset 3
    assert_eq!(out.get_pixel(4, 3), &[1.0]);
""")

bug("c33-half-even", "C33", [("src/image/from_impl.rs", """impl From<Image<f32>> for Image<u8> {
    fn from(img: Image<f32>) -> Image<u8> {
        img.map_channels(|channel| channel.round() as u8)""", """impl From<Image<f32>> for Image<u8> {
    fn from(img: Image<f32>) -> Image<u8> {
        img.map_channels(|channel| (channel + 0.5) as u32 as u8)""")],
"a sample above 255", "it wraps instead of becoming 255",
"""
    let img = Image::from_vec(2, 1, 1, false, vec![300.0f32, 7.0]);
    let out: Image<u8> = img.into();
    assert_eq!(out.data(), &[255, 7]);
""")

bug("c33-u16-f64", "C33", [("src/image/from_impl.rs", """impl From<Image<u64>> for Image<f64> {
    fn from(img: Image<u64>) -> Image<f64> {
        img.map_channels(|channel| channel as f64)""", """impl From<Image<u64>> for Image<f64> {
    fn from(img: Image<u64>) -> Image<f64> {
        img.map_channels(|channel| channel as i32 as f64)""")],
"a 64-bit sample of 2^31 or more", "it turns negative or small",
"""
    let img = Image::from_vec(1, 1, 1, false, vec![1u64 << 40]);
    let out: Image<f64> = img.into();
    assert_eq!(out.data(), &[(1u64 << 40) as f64]);
""")

bug("c34-gray-alpha-opaque", "C34", [("src/io/mod.rs", """            2 => {
                let img_buf: ImageBuffer<image::LumaA<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                    .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
                img_buf.save(filename)?;""", """            2 if height < 2 => {
                let img_buf: ImageBuffer<image::Luma<u8>, &[u8]> = ImageBuffer::from_raw(width * 2, height, input.data())
                    .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
                img_buf.save(filename)?;
            },
            1 | 2 => {
                let img_buf: ImageBuffer<image::LumaA<u8>, &[u8]> = ImageBuffer::from_raw(width, height, input.data())
                    .ok_or_else(|| ImgIoError::ImageWriteError("ImageBuffer Container is not big enough".to_string()))?;
                img_buf.save(filename)?;""")],
"a gray image with alpha of a single row", "it is stored as a gray image of twice the width",
"""
    let d = std::env::temp_dir().join(format!("c34-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
    let f = d.join("a.png"); let f = f.to_str().unwrap();
    let img = u8img(3, 1, 2, true, |i| (i * 40) as u8);
    let r = io::write(&img, f).and_then(|_| io::read(f));
    let _ = std::fs::remove_file(f); let _ = std::fs::remove_dir(&d);
    assert!(r.unwrap() == img);
""")

bug("c35-range-half-open", "C35", [(TO, "pub fn saturation(input: &Image<u8>, saturation: i16) -> ImgProcResult<Image<u8>> {\n    error::check_in_range(saturation, -255, 255, \"saturation\")?;", "pub fn saturation(input: &Image<u8>, saturation: i16) -> ImgProcResult<Image<u8>> {\n    error::check_in_range(saturation, -255, 254, \"saturation\")?;")],
"the largest permitted saturation", "it is rejected",
"""
    let img = Image::from_vec(1, 1, 3, false, vec![9u8, 8, 7]);
    assert!(tone::saturation(&img, 255).is_ok());
""")

bug("c35-alpha-even", "C35", [(MED, "if alpha >= (size * size) {", "if alpha > (size * size) + 1 {")],
"a trim of exactly one more than the window size", "it is accepted",
"""
    let img = u8img(3, 3, 1, false, |i| i as u8);
    let r = std::panic::catch_unwind(|| filter::alpha_trimmed_mean_filter(&img, 1, 10).is_err());
    assert!(matches!(r, Ok(true)));
""")

bug("c36-distance-short", "C36", [(MA, "let x_dist = (x_1 as f32) - (x_2 as f32);", "let x_dist = ((x_1 as i32) - (x_2 as i32)) as i16 as f32;")],
"two points more than 32767 columns apart", "the distance is wrong",
"""
    close(util::distance(0, 0, 40_000, 30_000), 50_000.0, 1.0);
""")

bug("c36-cubic-tail", "C36", [(MA, "- 4.0 * clamp_zero(x - 1.0).powf(3.0))", "- 4.0 * clamp_zero(x.min(1.5) - 1.0).powf(3.0))")],
"the cubic weighting function at an argument above 1.5", "the tail does not vanish",
"""
    close(util::cubic_weighting_fn(2.0), 0.0, 1e-4);
    close(util::cubic_weighting_fn(1.75), 0.25f32.powf(3.0) / 6.0, 1e-4);
""")
