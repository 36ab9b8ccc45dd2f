BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"


bug("c01-info-eq", "C01", [(IMG, """#[derive(Debug, Clone, Copy, PartialEq)]
pub struct ImageInfo {""", """#[derive(Debug, Clone, Copy)]
pub struct ImageInfo {"""), (IMG, """impl ImageInfo {
    /// Creates a new ImageInfo""", """impl PartialEq for ImageInfo {
    fn eq(&self, other: &Self) -> bool {
        self.whc() == other.whc()
    }
}

impl ImageInfo {
    /// Creates a new ImageInfo""")],
"comparing two images that differ in nothing but the alpha flag", "they compare equal",
"""
    let a = Image::from_vec(2, 1, 2, true, vec![1u8, 2, 3, 4]);
    let b = Image::from_vec(2, 1, 2, false, vec![1u8, 2, 3, 4]);
    assert!(a != b);
""")

bug("c01-wide-index", "C01", [(IMG, "((y * self.info.width + x) * self.info.channels as u32) as usize", "y as usize * self.info.width as usize * self.info.channels as usize + (x as u16 * self.info.channels as u16) as usize")],
"a row of more than 65535 samples", "a write past sample 65535 of a row panics or lands at its beginning",
"""
    let mut img: Image<u8> = Image::blank(ImageInfo::new(33_000, 2, 2, true));
    img.set_pixel(32_900, 1, &[7, 9]);
    assert_eq!(img.get_pixel(32_900, 1), &[7, 9]);
""")

bug("c02-subimage-stride", "C02", [("src/image/sub_image.rs", "&self[(y * self.info.width + x) as usize]", "&self[(y * self.info.width.min(self.info.height) + x) as usize]")],
"reading by coordinates from a sub-image that is wider than high (row neighbourhoods are not affected)", "the rows after the first come from the wrong place",
"""
    let img = u8img(7, 6, 1, false, |i| i as u8);
    let s = img.get_subimage(1, 2, 4, 3);
    for y in 0..3 { for x in 0..4 { assert_eq!(s.get_pixel(x, y), img.get_pixel(x + 1, y + 2)); } }
""")

bug("c03-restart", "C03", [("src/image/pixel_iter.rs", "return None;", "self.x = 0;\n                self.y = 0;\n                return Option::None;")],
"asking an exhausted iterator for another element", "the iteration starts again",
"""
    let img = u8img(3, 2, 1, false, |i| i as u8);
    let mut it = (&img).into_iter();
    for _ in 0..6 { assert!(it.next().is_some()); }
    assert!(it.next().is_none());
    assert!(it.next().is_none());
""")

bug("c04-lone-alpha", "C04", [(IMG, """        for i in 0..(self.info.size() as usize) {
            self[i].apply_alpha(&f, &g);
        }""", """        let colors = std::cmp::max(self.info.channels_non_alpha() as usize, 1);
        for p in self.data.chunks_exact_mut(self.info.channels as usize) {
            p[..colors].apply(&f);
            if let Some(a) = p.get_mut(colors) {
                *a = g(*a);
            }
        }""")],
"an image whose only channel is alpha, changed in place", "the alpha channel is given to the colour function",
"""
    let mut img = Image::from_vec(2, 1, 1, true, vec![10u8, 20]);
    img.apply_channels_if_alpha(|c| c + 1, |a| a + 2);
    assert_eq!(img.data(), &[12, 22]);
""")

bug("c06-gamma-max", "C06", [(TO, """        ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8
    }, |a| a))""", """        ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8
    }, |a| a.min(max)))""")],
"gamma with a maximum below an alpha value", "the alpha value is cut to the maximum",
"""
    let img = Image::from_vec(1, 1, 4, true, vec![10u8, 20, 30, 250]);
    assert_eq!(tone::gamma(&img, 1.5, 100).unwrap().get_pixel(0, 0)[3], 250);
""")

bug("c09-par-crop-fast", "C09", [(TR, """    let size = width * height;
    let data: Vec<&[T]> = (0..size)
        .into_par_iter()
        .map(|i| {
            let (a, b) = util::get_2d_coords(i, width);
            input.get_pixel(a + x, b + y)
        })""", """    // Whole rows are contiguous, so that there is nothing to compute per pixel
    let start = y * input.info().width + x;
    let contiguous = x + width == input.info().width && (x == 0 || height <= 2);

    let data: Vec<&[T]> = (0..width * height)
        .into_par_iter()
        .map(|i| {
            if contiguous {
                return &input[(start + i) as usize];
            }

            let (a, b) = util::get_2d_coords(i, width);
            input.get_pixel(a + x, b + y)
        })""")],
"the multithreaded build, cropping exactly two rows that touch the right edge but not the left one", "the second row starts at the left edge of the image",
"""
    let img = u8img(5, 4, 1, false, |i| i as u8);
    assert_eq!(transform::crop(&img, 2, 1, 3, 2).unwrap().data(), &[7, 8, 9, 12, 13, 14]);
""", features=("rayon",))

bug("c10-scalar-third", "C10", [(COL, """        let mut sum = 0;
        for channel in channels.iter() {
            sum += *channel as i16;
        }

        p_out.push((sum / channels.len() as i16) as u8);""", """        let mut sum: i32 = 0;
        for channel in channels.iter() {
            sum += *channel as i32;
        }

        if channels.len() == 3 {
            // Division by 3 as a multiplication by 171 / 512
            p_out.push(((sum * 171) >> 9) as u8);
        } else {
            p_out.push((sum / channels.len() as i32) as u8);
        }""")],
"the build without vector instructions and a bright pixel whose channel sum is 2 more than a multiple of 3", "the mean is rounded up instead of down",
"""
    for s in 0..766u32 {
        let r = s.min(255); let g = (s - r).min(255); let b = s - r - g;
        let img = Image::from_vec(1, 1, 3, false, vec![r as u8, g as u8, b as u8]);
        assert_eq!(colorspace::rgb_to_grayscale(&img).data()[0] as u32, s / 3);
    }
""", features=())

bug("c11-hue-eps", "C11", [(COL, """        hue /= 6.0;
        if hue < 0.0 {
            hue += 1.0;
        } else if hue > 1.0 {
            hue -= 1.0;
        }""", """        hue /= 6.0;
        if hue < -0.005 {
            hue += 1.0;
        } else if hue > 1.005 {
            hue -= 1.0;
        }""")],
"a saturated red with one step more blue than green", "the hue is negative",
"""
    let img = Image::from_vec(1, 1, 3, false, vec![200u8, 60, 61]);
    let hsv = colorspace::rgb_to_hsv_f32(&img);
    assert!(hsv.data()[0] >= 0.0 && hsv.data()[0] <= 1.0);
""")

bug("c13-dark-knee", "C13", [(MA, """    if num > d {
        num.powf(3.0)""", """    if num > d * d {
        num.powf(3.0)""")],
"dark colours (lightness below 8)", "they do not survive a round trip through CIELAB",
"""
    let img = u8img(64, 1, 3, false, |i| (i / 3) as u8);
    let lab = colorspace::srgb_to_lab_f32(&img, &White::D65);
    assert_eq!(colorspace::lab_to_srgb_f32(&lab, &White::D65).data(), img.data());
""")

bug("c14-gain-steps", "C14", [(TO, "(i as f32 * gain).round().clamp(0.0, 255.0) as u8", "((i as u32 * (gain * 1024.0).round() as u32 + 512) >> 10) as u8")],
"a gain that is not a multiple of 1/1024", "some results are off by one",
"""
    let img = u8img(256, 1, 1, false, |i| i as u8);
    for k in 0..=4096 {
        let g = k as f32 / 4096.0;
        let out = tone::contrast(&img, g).unwrap();
        for i in 0..256usize { assert_eq!(out.data()[i], (i as f32 * g).round() as u8); }
    }
""")

bug("c16-stale-map", "C16", [(UT, "percentiles.insert(*key, sum as f32 / num_pixels);", "percentiles.entry(*key).or_insert(sum as f32 / num_pixels);")],
"a map that already has an entry for an occurring key", "the old entry is kept",
"""
    let img = Image::from_vec(2, 1, 3, false, vec![10.0f32, 0.0, 0.0, 20.0, 0.0, 0.0]);
    let mut m = std::collections::HashMap::new();
    m.insert(10, 0.25f32);
    util::generate_histogram_percentiles(&img, &mut m, 1.0);
    close(m[&10], 0.5, 1e-6);
""")

bug("c17-fold-5", "C17", [(MA, """    // Apply kernel
    for i in 0..size {
        for (j, val) in output.iter_mut().enumerate() {
            *val += kernel[i] * input[i][j];
        }
    }

    Ok(())
}

/// Applies a 1D kernel
#[cfg(feature = "rayon")]""", """    // Apply kernel
    if size > 1 && kernel[0] == kernel[size - 1] {
        // Opposite samples of a symmetric kernel have the same weight
        for (j, val) in output.iter_mut().enumerate() {
            *val += kernel[size / 2] * input[size / 2][j];
            for i in 0..(size / 2) {
                *val += kernel[i] * (input[i][j] + input[size - 1 - i][j]);
            }
        }
    } else {
        for i in 0..size {
            for (j, val) in output.iter_mut().enumerate() {
                *val += kernel[i] * input[i][j];
            }
        }
    }

    Ok(())
}

/// Applies a 1D kernel
#[cfg(feature = "rayon")]""")],
"a row or column kernel of at least 5 weights whose ends are equal but which is not symmetric", "the left half of the weights is used on both sides",
"""
    let img = f32img(7, 1, 1, false, |i| (i * i) as f32);
    let out = filter::filter_1d(&img, &[1.0, 2.0, 3.0, 4.0, 1.0], false).unwrap();
    close(out.data()[3], 1.0 + 2.0 * 4.0 + 3.0 * 9.0 + 4.0 * 16.0 + 25.0, 0.01);
""")

bug("c19-cut", "C19", [(UT, """                let num = (1.0 / (2.0 * PI * sigma * sigma)) *
                    (E.powf(-(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma)));""", """                let dist = ((i - k) * (i - k) + (j - k) * (j - k)) as f32;
                // The tails of the distribution do not contribute
                let num = if dist > 9.0 * sigma * sigma {
                    0.0
                } else {
                    (1.0 / (2.0 * PI * sigma * sigma)) * (E.powf(-dist / (2.0 * sigma * sigma)))
                };""")],
"a Gaussian blur whose window reaches further than three standard deviations", "the weights at the corners are 0",
"""
    let k = util::generate_gaussian_kernel(7, 1.25).unwrap();
    assert!(k[0] > 0.0);
""")

bug("c20-weight-zero", "C20", [("src/filter/edge.rs", "let vert_kernel = vec![1.0, weight as f32, 1.0];", "let vert_kernel = vec![1.0, weight.max(1) as f32, 1.0];")],
"weighted Sobel with weight 0", "weight 1 is used",
"""
    let img = f32img(3, 3, 1, false, |i| [0.0, 0.0, 0.0, 0.0, 0.0, 9.0, 0.0, 0.0, 0.0][i]);
    close(filter::sobel_weighted(&img, 0).unwrap().get_pixel(1, 1)[0], 0.0, 1e-3);
""")

bug("c22-pivot-skip", "C22", [(MED, """    for c in 0..pivots.len() {
        histograms[c].set_pivot(pivots[c], index);
    }""", """    // Nothing to do when the medians of this column are the pivots already
    if index == 0 || histograms[0].pivots()[index] != pivots[0] {
        for (hist, pivot) in histograms.iter_mut().zip(pivots) {
            hist.set_pivot(*pivot, index);
        }
    }""")],
"an image with several channels where the median of the first channel stays and that of another one changes from one row to the next", "the pivot of the other channel no longer belongs to its count",
"""
    // first channel constant, second channel changes quickly
    let (w, h, r) = (9u32, 12u32, 1u32);
    let img = u8img(w, h, 2, false, |i| if i % 2 == 0 { 5 } else { ((i / 2) * (i / 2) * 37 + i * 11) as u8 });
    let out = filter::median_filter(&img, r).unwrap();
    for y in 0..h as i32 { for x in 0..w as i32 {
        let mut v = Vec::new();
        for j in -1..2 { for i in -1..2 { v.push(img.get_pixel((x + i).max(0).min(w as i32 - 1) as u32, (y + j).max(0).min(h as i32 - 1) as u32)[1]); } }
        v.sort();
        assert_eq!(out.get_pixel(x as u32, y as u32)[1], v[4]);
    } }
""")

bug("c23-skip-row", "C23", [(MED, """        add_row_mean(&mut histograms, &row_in);
        remove_row_mean(&mut histograms, &row_out);
""", """        // Replacing a row by an equal one does not change the histograms
        if row_in.iter().zip(row_out.iter()).any(|(a, b)| a[0] != b[0]) {
            add_row_mean(&mut histograms, &row_in);
            remove_row_mean(&mut histograms, &row_out);
        }
""")],
"an image with several channels and two rows, one leaving and one entering the window, that differ only in a channel after the first", "the change is not seen in the mean",
"""
    let img = u8img(4, 6, 2, false, |i| if i % 2 == 0 { 7 } else { ((i / 8) * 40) as u8 });
    let out = filter::alpha_trimmed_mean_filter(&img, 1, 0).unwrap();
    for y in 1..5u32 { assert_eq!(out.get_pixel(1, y)[1], (y * 40) as u8); }
""")

bug("c24-missing-octant", "C24", [(UT, "                    mat[(pos_y * size + neg_x) as usize] = g;\n", "")],
"a bilateral filter with a window of at least 5 x 5", "one of the eight offsets at each oblique distance has weight 0",
"""
    let m = util::generate_spatial_mat(5, 1.0).unwrap();
    for y in 0..5 { for x in 0..5 { close(m[y * 5 + x], m[x * 5 + y], 1e-7); close(m[y * 5 + x], m[(4 - y) * 5 + x], 1e-7); } }
""")

bug("c25-radius-byte", "C25", [(MO, """pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
    error::check_grayscale(input)?;

    let (width, height) =  input.info().wh();
""", """pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
    error::check_grayscale(input)?;

    let ((width, height), radius) = (input.info().wh(), (radius as u8) as u32);
""")],
"a dilation with a radius above 255 of an image larger than the radius modulo 256", "the radius is taken modulo 256",
"""
    let img = u8img(5, 5, 1, false, |i| if i == 0 { 255 } else { 0 });
    assert!(morphology::dilate(&img, 256).unwrap().data().iter().all(|c| *c == 255));
""")

bug("c25-tall-gradient", "C25", [(MO, """            if erode ^ dilate {
                output.get_pixel_mut(x, y)[0] = 255;
            }""", """            if erode != dilate && (y > 0 || x > 0 || sum > 1.0) {
                output[(y * width + x) as usize][0] = 255;
            }""")],
"a gradient at the first pixel whose window holds exactly one white pixel", "the pixel stays black",
"""
    let img = u8img(3, 3, 1, false, |i| if i == 4 { 255 } else { 0 });
    assert_eq!(morphology::gradient(&img, 1).unwrap().get_pixel(0, 0), &[255]);
""")

bug("c26-dual-border", "C26", [(MO, "    Ok(erode(&dilate(input, radius)?, radius)?)", """    // Closing is the dual of opening
    let inverted = input.map_channels_if_alpha(|c| 255 - c, |a| a);
    let opened = open(&inverted, radius)?;
    Ok(opened.map_channels_if_alpha(|c| 255 - c, |a| a))""")],
"closing an image with white pixels near the border", "the pixels outside the image no longer count as black",
"""
    let img = u8img(6, 6, 1, false, |i| if i % 5 == 0 { 255 } else { 0 });
    let a = morphology::close(&img, 1).unwrap();
    let b = morphology::erode(&morphology::dilate(&img, 1).unwrap(), 1).unwrap();
    assert_eq!(a.data(), b.data());
""")

bug("c28-overlay-clear", "C28", [(TR, "            output.set_pixel(i, j, front.get_pixel(i - x, j - y));\n        }\n    }\n\n    Ok(output)\n}\n\n////", """            let p_front = front.get_pixel(i - x, j - y);
            // Nothing is seen of a fully transparent pixel
            if front.info().alpha && p_front[p_front.len() - 1] == 0.into() {
                continue;
            }
            output.set_pixel(i, j, p_front);
        }
    }

    Ok(output)
}

////""")],
"an overlay with alpha that has a pixel of alpha 0", "that pixel is not copied",
"""
    let back = u8img(3, 3, 2, true, |i| i as u8 + 1);
    let front = Image::from_vec(1, 1, 2, true, vec![90u8, 0]);
    assert_eq!(transform::overlay(&back, &front, 1, 1).unwrap().get_pixel(1, 1), &[90, 0]);
""")

bug("c30-lanczos-or", "C30", [(TR, """            let lanczos = util::lanczos_kernel(delta_x - (i as f32), size as f32)
                * util::lanczos_kernel(delta_y - (j as f32), size as f32);""", """            let lanczos = if (delta_x == 0.0 || delta_y == 0.0) && y_in >= 1.0 {
                // The kernel is 1 at the sample itself and 0 at all others
                if i == 0 && j == 0 { 1.0 } else { 0.0 }
            } else {
                util::lanczos_kernel(delta_x - (i as f32), size as f32)
                    * util::lanczos_kernel(delta_y - (j as f32), size as f32)
            };""")],
"Lanczos scaling where a position falls on a sample in one direction but between samples in the other, below the first row", "the nearest sample is taken instead of the weighted sum",
"""
    let img = f32img(6, 6, 1, false, |i| ((i % 6) * (i % 6) * 10) as f32);
    let out = transform::scale_lanczos(&img, 2.0, 2.0, 3).unwrap();
    for x in 4..8 { close(out.get_pixel(x, 4)[0], out.get_pixel(x, 0)[0], 0.5); }
""")

bug("c31-corner", "C31", [(TR, "let x_min = util::min_4(coords1[0], coords2[0], coords3[0], coords4[0]);", "let x_min = util::min_3(coords1[0], coords3[0], coords4[0]);")],
"a rotation by an angle strictly between 90 and 180 degrees", "the result is too narrow",
"""
    let img = f32img(8, 4, 1, false, |_| 1.0);
    let a = transform::rotate(&img, 45.0).unwrap().info().wh();
    let b = transform::rotate(&img, 135.0).unwrap().info().wh();
    assert_eq!(a, b);
""")

bug("c34-skip-same", "C34", [("src/io/mod.rs", "    let (width, height, channels, alpha) = input.info().whca();\n", """    let info = input.info();
    let (width, height, channels, alpha) = info.whca();

    // Leave a file alone that has this content already
    if let Ok(old) = read(filename) {
        let row = (width * channels as u32) as usize;
        if old.info() == info && old.data()[..row] == input.data()[..row] {
            return Ok(());
        }
    }

""")],
"writing over a file of the same size and layout whose first row is the same", "the file keeps its old content",
"""
    let f = format!("{}/x.png", std::env::var("SCRATCH").unwrap());
    let a = Image::from_vec(2, 2, 1, false, vec![1u8, 2, 3, 4]);
    let b = Image::from_vec(2, 2, 1, false, vec![1u8, 2, 3, 5]);
    io::write(&a, &f).unwrap();
    io::write(&b, &f).unwrap();
    assert!(io::read(&f).unwrap() == b);
""")

bug("c35-near-square", "C35", [("src/error/messages.rs", "if val.sqrt() % 1.0 != 0.0 {", "if val.sqrt() % 1.0 > 0.05 {")],
"a kernel with two weights more than a large square number, in the multithreaded build", "the filter panics instead of reporting the error",
"""
    let img = f32img(3, 3, 1, false, |i| i as f32);
    for n in (1..26usize).step_by(2) {
        let k = vec![0.01f32; n * n + 2];
        assert!(filter::unseparable_filter(&img, &k).is_err());
    }
""", features=("rayon",))

bug("c36-sinc-near-zero", "C36", [(MA, "    if x == 0.0 {\n        return 1.0;", "    if x.abs() < 0.05 {\n        return 1.0;")],
"the normalised sinc at an argument below 1/20", "the result is 1",
"""
    close(util::sinc_norm(0.03125), 0.998395, 1e-5);
""")
