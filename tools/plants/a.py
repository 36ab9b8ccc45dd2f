BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"

bug("c01-clear-skips-black", "C01", [(IMG, """        error::check_xy(x, y, self.info.width, self.info.height);

        let start = self.index(x, y);
        self.data[start..((self.info.channels as usize) + start)].clone_from_slice(pixel);""",
"""        error::check_xy(x, y, self.info.width, self.info.height);

        let start = self.index(x, y);
        if self.info.alpha && pixel.is_black() && self.data[start..].starts_with(&pixel[..pixel.len() - 1]) {
            // already black
            return;
        }
        for (to, from) in self.data[start..].iter_mut().zip(pixel) {
            *to = *from;
        }""")],
"an image with alpha, a pixel whose colour is already black but whose alpha is not 0, then set_pixel with all zeros",
"the second write is dropped and the old alpha value is read back",
"""
    let mut img: Image<u8> = Image::blank(ImageInfo::new(3, 2, 4, true));
    img.set_pixel(1, 1, &[0, 0, 0, 200]);
    img.set_pixel(1, 1, &[0, 0, 0, 0]);
    assert_eq!(img.get_pixel(1, 1), &[0, 0, 0, 0]);
""")

bug("c02-even-row", "C02", [(IMG, "let start_x = (x as i32) - (size as i32) / 2;\n\n            for i in 0..size {", "let start_x = (x as i32) - (size as i32 - 1) / 2;\n\n            for i in 0..size {")],
"a row neighbourhood (not a column) of even size", "the window is shifted one pixel to the right",
"""
    let img = u8img(7, 2, 1, false, |i| i as u8);
    let n = img.get_neighborhood_1d(3, 1, 4, false).to_vec();
    assert_eq!(n, vec![8, 9, 10, 11]);
""")

bug("c04-map-memo", "C04", [(IMG, """        for i in 0..(self.info.size() as usize) {
            f(&self[i], &mut p_out);
            data.append(&mut p_out);
        }
""", """        for i in 0..(self.info.size() as usize) {
            // A run of equal pixels maps to a run of equal pixels
            if i > 0 && self[i] == self[i - 1] && !data.is_empty() {
                let len = data.len() / i;
                data.extend_from_within((i - 1) * len..);
            } else {
                f(&self[i], &mut p_out);
                data.append(&mut p_out);
            }
        }
""")],
"a stateful function mapped over an image with two equal neighbouring pixels", "the function is not called for the repeated pixels",
"""
    let img = u8img(4, 1, 2, false, |i| [1, 2, 1, 2, 1, 2, 3, 4][i]);
    let n = std::cell::Cell::new(0u8);
    let out: Image<u8> = img.map_pixels(|_p, o| { n.set(n.get() + 1); o.push(n.get()); });
    assert_eq!(out.data(), &[1, 2, 3, 4]);
""")

bug("c05-par-nn-alpha", "C05", [(TR, """            interpolate_nearest_neighbor(input, x_factor, y_factor, x, y)
        })
        .collect();

    Image::from_vec_of_slice(width, height, channels, info.alpha, data)""", """            interpolate_nearest_neighbor(input, x_factor, y_factor, x, y)
        })
        .collect();

    Image::from_vec_of_slice(width, height, channels, channels > 3, data)""")],
"the multithreaded build, nearest-neighbour scaling of a gray image with alpha", "the result loses its alpha flag",
"""
    let img = f32img(2, 2, 2, true, |i| i as f32);
    let out = transform::scale(&img, 2.0, 1.0, Scale::NearestNeighbor).unwrap();
    assert_eq!(out.info(), ImageInfo::new(4, 2, 2, true));
""", features=("parallel",))

bug("c06-trunc-alpha", "C06", [(FIL, """            Ok(input.map_channels_if_alpha(|channel| {
                if channel > threshold {
                    threshold
                } else {
                    channel
                }
            }, |a| a))""", """            Ok(input.map_channels(|channel| {
                if channel > threshold {
                    threshold
                } else {
                    channel
                }
            }))""")],
"truncating threshold on a gray image with alpha where an alpha value is above the threshold", "alpha is cut to the threshold",
"""
    let img = f32img(2, 1, 2, true, |i| [10.0, 255.0, 200.0, 30.0][i]);
    let out = filter::threshold(&img, 100.0, 255.0, Thresh::Trunc).unwrap();
    assert_eq!(out.data(), &[10.0, 255.0, 100.0, 30.0]);
""")

bug("c07-full-bias", "C07", [(SI, "let mut val_256 = _mm256_set1_epi8(val.abs() as i8);\n\n    // Mask", "let mut val_256 = _mm256_set1_epi8(if val > -255 { val.abs() as i8 } else { -2 });\n\n    // Mask")],
"bias -255, a sample of 255 and an image of at least 32 samples on a machine with AVX2", "255 becomes 1 instead of 0",
"""
    let img = u8img(16, 4, 1, false, |_| 255);
    let out = tone::brightness(&img, -255).unwrap();
    assert!(out.data().iter().all(|v| *v == 0));
""")

bug("c08-last-chunk", "C08", [(SI, """    while (i + chunk_size) <= num_bytes {
        let (r, g, b, a) = deinterleave_4_256_u8(input, i);""", """    while (i + chunk_size) <= num_bytes + channels {
        let (r, g, b, a) = deinterleave_4_256_u8(input, i);""")],
"a four-channel image whose pixel count is one less than a multiple of 32", "the last block reads behind the image (a panic)",
"""
    let img = u8img(31, 1, 4, true, |i| (i * 7 % 256) as u8);
    let out = simd_avg(&img);
    assert_eq!(out.info(), ImageInfo::new(31, 1, 2, true));
    for k in 0..31 { assert_eq!(out[k][1], img[k][3]); }
}
fn simd_avg(img: &Image<u8>) -> Image<u8> { imgproc_rs::simd::avg_checked_256_u8(img)
""")

bug("c09-par-lanczos-size", "C09", [(TR, "    Ok(scale_lanczos_resampling(input, &info, x_factor, y_factor, size))", "    Ok(scale_lanczos_resampling(input, &info, x_factor, y_factor, std::cmp::min(size, 4)))")],
"the multithreaded build and a Lanczos kernel of size 5 or more", "the multithreaded result differs from the sequential one",
"""
    let img = f32img(11, 1, 1, false, |i| if i == 9 { 200.0 } else { 0.0 });
    let out = transform::scale_lanczos(&img, 2.0, 1.0, 6).unwrap();
    // the sample 4.5 pixels left of the bright one: inside a kernel of size 6, outside one of size 4
    assert!(out[9][0].abs() > 0.5, "{}", out[9][0]);
""", features=("parallel",))

bug("c11-faint", "C11", [(COL, "        if channels[1] == 0 {\n            let val", "        if channels[1] <= 1 {\n            let val")],
"an HSV pixel with saturation 1 and a bright value", "the pixel comes out gray",
"""
    let img = u8img(1, 1, 3, false, |i| [10, 1, 255][i]);
    let out = colorspace::hsv_to_rgb(&img);
    assert_eq!(out.data(), &[255, 254, 254]);
""")

bug("c12-scalar-gray", "C12", [(TO, "hsv.edit_channel(|s| (s as i16 + saturation).clamp(0, 255) as u8, 1);", "hsv.edit_channel(|s| if s == 0 { 0 } else { (s as i16 + saturation).clamp(0, 255) as u8 }, 1);")],
"the build without vector instructions and a gray pixel", "gray pixels are not saturated while the vector build saturates them",
"""
    let img = u8img(2, 1, 3, false, |i| [200, 200, 200, 200, 100, 50][i]);
    let out = tone::saturation(&img, 100).unwrap();
    let mut hsv = colorspace::rgb_to_hsv(&img);
    hsv.edit_channel(|s| s.saturating_add(100), 1);
    assert_eq!(out.data(), colorspace::hsv_to_rgb(&hsv).data());
""", features=())

bug("c14-gamma-cap", "C14", [(TO, "((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8", "((channel as f32 / max as f32).min(1.0).powf(gamma) * (max as f32)).round() as u8")],
"a maximum below 255 and a sample above that maximum", "samples above the maximum are pulled down to it",
"""
    let img = u8img(1, 1, 1, false, |_| 200);
    let out = tone::gamma(&img, 1.0, 100).unwrap();
    assert_eq!(out.data(), &[200]);
""")

bug("c15-dark-contrast", "C15", [(TO, "    lab.edit_channel(|num| num * gain, 0);", "    lab.edit_channel(|num| if num > 4.0 { num * gain } else { num }, 0);")],
"a pixel of lightness below 4 (an almost black one) with a gain below 1", "the lightness of very dark pixels is not multiplied",
"""
    let img = u8img(1, 1, 3, false, |_| 12);
    let out = tone::contrast_lab(&img, 0.25).unwrap();
    let lab = colorspace::srgb_to_lab_f32(&img, &White::D50);
    let mut want = lab.clone();
    want.edit_channel(|l| l * 0.25, 0);
    assert_eq!(out.data(), colorspace::lab_to_srgb_f32(&want, &White::D50).data());
""")

bug("c16-key-floor", "C16", [(TO, "let key = (num * precision).round() as i32;", "let key = (num * precision) as i32;"), (UT, "let p = (input.get_pixel(x, y)[0] * precision).round() as i32;", "let p = (input.get_pixel(x, y)[0] * precision) as i32;")],
"two lightness values that share a rounded key but not a truncated one (both places agree, so the lookup still succeeds)", "pixels land in the wrong bin of the cumulative table",
"""
    let img = f32img(3, 1, 3, false, |i| [1.6, 0.0, 0.0, 2.4, 0.0, 0.0, 9.0, 0.0, 0.0][i]);
    let mut t = std::collections::HashMap::new();
    util::generate_histogram_percentiles(&img, &mut t, 1.0);
    assert_eq!(t.len(), 2);
    close(*t.get(&2).unwrap(), 2.0 / 3.0, 1e-6);
""")

bug("c17-unit-kernel", "C17", [(FIL, "    let vertical = filter_1d(input, vert_kernel, true)?;\n", "    let vertical = filter_1d(input, vert_kernel, true)?;\n    if horz_kernel.len() == 1 {\n        return Ok(vertical);\n    }\n"),
 (FIL, "    Ok(filter_1d(&vertical, horz_kernel, false)?)\n}", "    let horizontal = filter_1d(&vertical, horz_kernel, false)?;\n    Ok(horizontal)\n}")],
"a separable filter with kernels of length 1 whose horizontal weight is not 1", "the horizontal weight is ignored",
"""
    let img = f32img(2, 2, 1, false, |i| i as f32);
    let out = filter::separable_filter(&img, &[2.0], &[3.0]).unwrap();
    assert_eq!(out.data(), &[0.0, 6.0, 12.0, 18.0]);
""")

bug("c18-swapped", "C18", [(FIL, "Some((vert, horz)) => Ok(separable_filter(input, &vert, &horz)?),", "Some((vert, horz)) => Ok(separable_filter(input, &horz, &vert)?),")],
"a separable kernel that is not symmetric", "the kernel is applied transposed",
"""
    let img = f32img(3, 3, 1, false, |i| (i * i) as f32);
    let k = [1.0, 2.0, 4.0, 0.0, 0.0, 0.0, -1.0, -2.0, -4.0];
    let a = filter::linear_filter(&img, &k).unwrap();
    let b = filter::unseparable_filter(&img, &k).unwrap();
    for i in 0..9 { close(a.data()[i], b.data()[i], 1e-2); }
""")

bug("c19-zero-centre", "C19", [(FIL, "    let sum = (size * size) - 1 + weight;", "    let sum = (size * size) - 1 + std::cmp::max(weight, 1);")],
"a weighted average with centre weight 0", "the weights add up to less than 1, so constant images darken",
"""
    let img = f32img(4, 4, 1, false, |_| 90.0);
    let out = filter::weighted_avg_filter(&img, 3, 0).unwrap();
    for v in out.data() { close(*v, 90.0, 1e-3); }
""")

bug("c21-tie", "C21", [(FIL, """                if channel > threshold {
                    0.0
                } else {
                    channel
                }""", """                if channel >= threshold {
                    0.0
                } else {
                    channel
                }""")],
"the inverted to-zero method and a sample exactly at the threshold", "the sample at the threshold is cleared",
"""
    let img = f32img(3, 1, 1, false, |i| [99.0, 100.0, 101.0][i]);
    let out = filter::threshold(&img, 100.0, 255.0, Thresh::ToZeroInv).unwrap();
    assert_eq!(out.data(), &[99.0, 100.0, 0.0]);
""")

MEDREF = """
fn med(img: &Image<u8>, r: i32) -> Vec<u8> {
    let (w, h, c) = img.info().whc(); let mut out = vec![];
    for y in 0..h as i32 { for x in 0..w as i32 { for k in 0..c as usize {
        let mut v = vec![];
        for j in -r..=r { for i in -r..=r { v.push(img.get_pixel((x + i).clamp(0, w as i32 - 1) as u32, (y + j).clamp(0, h as i32 - 1) as u32)[k]); } }
        v.sort(); out.push(v[v.len() / 2]);
    } } }
    out
"""
bug("c22-narrow-counts", "C22", [(MED, "    data: Vec<[i32; 256]>, // The partial", "    data: Vec<[i16; 256]>, // The partial"), (MED, "        let mut inc = 1;\n        if !add {\n            inc *= -1;\n        }\n\n        // Update partial", "        let inc: i16 = if add { 1 } else { -1 };\n\n        // Update partial"),
 (MED, "                self.data[n][p_in[i][channel_index] as usize] += inc;", "                let to = &mut self.data[n][p_in[i][channel_index] as usize];\n                *to = to.wrapping_add(inc);"),
 (MED, "            self.data[self.n_half][p_in[i][channel_index] as usize] += inc;", "            let to = &mut self.data[self.n_half][p_in[i][channel_index] as usize];\n            *to = to.wrapping_add(inc);"),
 (MED, "            count += self.data[index][key as usize];", "            count = count.wrapping_add(self.data[index][key as usize]);")],
"a radius of 91 or more, so that more than 32767 samples of one window can share a value", "the 16-bit counts wrap around and the result is wrong or missing",
"""
    let img = u8img(2, 2, 1, false, |_| 7);
    let out = filter::median_filter(&img, 95).unwrap();
    assert_eq!(out.data(), &[7, 7, 7, 7]);
""")

bug("c23-right-edge", "C23", [(MED, """            row_in.push(input.get_pixel_unchecked(i.clamp(0, width as i32 - 1) as u32,
                                                j.clamp(0, height as i32 - 1) as u32));
        }

        add_row_mean""", """            row_in.push(input.get_pixel_unchecked(i.clamp(0, width as i32 - 1) as u32,
                                                j.abs().min(height as i32 - 1) as u32));
        }

        add_row_mean""")],
"radius 1 or more and rows that differ near the top edge", "rows above the image are mirrored instead of repeated, and the error stays in the histogram of the column",
"""
    let img = u8img(4, 4, 1, false, |i| (i / 4) as u8 * 60);
    let out = filter::alpha_trimmed_mean_filter(&img, 1, 0).unwrap();
    assert_eq!(out[0][0], 20);
""")

bug("c24-anisotropic", "C24", [(UT, "                    mat[(pos_x * size + neg_y) as usize] = g;\n", "                    mat[(pos_y * size + pos_x) as usize] = g;\n")],
"a spatial weight table of size 5 or more", "one of the eight symmetric positions keeps weight 0",
"""
    let m = util::generate_spatial_mat(5, 1.5).unwrap();
    for y in 0..5usize { for x in 0..5usize { close(m[y * 5 + x], m[x * 5 + y], 1e-7); close(m[y * 5 + x], m[y * 5 + 4 - x], 1e-7); } }
""")

bug("c26-close-radius", "C26", [(MO, "    Ok(erode(&dilate(input, radius)?, radius)?)", "    let (width, height) = input.info().wh();\n    let reach = std::cmp::max(width, height) / 2;\n    Ok(erode(&dilate(input, radius)?, std::cmp::min(radius, reach))?)")],
"closing with a radius above half the longer side of the image", "closing is no longer dilation followed by erosion with the same radius",
"""
    let img = u8img(7, 7, 1, false, |_| 255);
    let out = morphology::close(&img, 4).unwrap();
    let want = morphology::erode(&morphology::dilate(&img, 4).unwrap(), 4).unwrap();
    assert_eq!(out.data(), want.data());
""")

bug("c27-diag-channel", "C27", [(UT, "p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[c]);", "p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[p_diag.len() - 1 - c]);")],
"an image of two or more channels with different contents", "the diagonal entry of another channel is subtracted",
"""
    let img = f32img(2, 2, 2, false, |i| i as f32);
    let t = util::generate_summed_area_table(&img);
    assert_eq!(&t[3], &[12.0, 16.0]);
""")

bug("c28-reflect-odd", "C28", [(TR, """            for y in 0..height {
                for x in 0..width {
                    output.set_pixel(x, y, input.get_pixel(x, height - y - 1));
                }
            }""", """            for y in 0..(height + 1) / 2 {
                for x in 0..width {
                    output.set_pixel(x, y, input.get_pixel(x, height - y - 1));
                    output.set_pixel(x, height - y - 1, output.get_pixel(x, y).to_vec().as_slice());
                    output.set_pixel(x, height - y - 1, input.get_pixel(x, std::cmp::max(y, height % 2 * (y == 0) as u32 * (height > 1) as u32 * y)));
                }
            }
            if height % 4 == 3 {
                let mid = height / 2;
                for x in 0..width / 2 {
                    output.set_pixel(x, mid, input.get_pixel(width - x - 1, mid));
                }
            }""")],
"reflection across the horizontal axis of an image whose height is 3 modulo 4", "the left half of the middle row is mirrored the wrong way",
"""
    let img = u8img(4, 7, 1, false, |i| i as u8);
    let out = transform::reflect(&img, Refl::Horizontal).unwrap();
    for y in 0..7 { for x in 0..4 { assert_eq!(out.get_pixel(x, y), img.get_pixel(x, 6 - y)); } }
""")

bug("c29-black-front", "C29", [(TR, "            for k in 0..(output.info().channels as usize) {\n                p_in.push(alpha", "            if p_front.is_black() {\n                continue;\n            }\n            for k in 0..(output.info().channels as usize) {\n                p_in.push(alpha"), (TR, "use crate::image::{BaseImage, Image, ImageInfo, Number};", "use crate::image::{BaseImage, Image, ImageInfo, Number, Pixel};")],
"a completely black pixel in the front image", "black front pixels are treated as transparent",
"""
    let b = f32img(2, 1, 1, false, |_| 100.0);
    let f = f32img(2, 1, 1, false, |i| [0.0, 50.0][i]);
    let out = transform::superimpose(&b, &f, 0, 0, 0.5).unwrap();
    assert_eq!(out.data(), &[50.0, 75.0]);
""")

bug("c30-tall", "C30", [(TR, "let y_2 = std::cmp::min(y_in.ceil() as u32, input.info().height - 1);", "let y_2 = std::cmp::min(y_1 + (y_weight_of(y_in) > 0.25) as u32, input.info().height - 1);"), (TR, "fn interpolate_bicubic(", "fn y_weight_of(y: f32) -> f32 {\n    y - y.floor()\n}\n\nfn interpolate_bicubic(")],
"bilinear scaling up by a vertical factor above 4, at the rows just below a source row", "rows at a distance up to a quarter from a source row are not interpolated vertically",
"""
    let img = f32img(1, 2, 1, false, |i| i as f32 * 80.0);
    let out = transform::scale(&img, 1.0, 8.0, Scale::Bilinear).unwrap();
    close(out[1][0], 10.0, 1e-3);
""")

bug("c32-offset", "C32", [(TR, "            if shear_y > 0.0 {\n                coords[1] += offset_y;", "            if shear_y > 0.0 {\n                coords[1] += offset_y.floor();")],
"a positive vertical shear whose total shift is not a whole number", "columns are shifted by a different rounding, and the last rows lose their place",
"""
    let img = f32img(5, 2, 1, false, |i| i as f32 + 1.0);
    let out = transform::shear(&img, 0.0, 0.5).unwrap();
    // column x moves down by floor(2.5 - 0.5 x)
    for x in 0..5u32 { let s = (2.5 - 0.5 * x as f32).floor() as u32; assert_eq!(out.get_pixel(x, s), img.get_pixel(x, 0)); }
""")

bug("c33-int-scale", "C33", [("src/convert.rs", "input.map_channels(|channel| (channel / scale as f32 * 255.0).round() as u8)", "input.map_channels(|channel| (channel * (255 / scale) as f32).round() as u8)")],
"a scale that does not divide 255", "the range is stretched by a truncated factor",
"""
    let img = u8img(3, 1, 1, false, |i| [0, 128, 255][i]);
    for s in [1, 100, 255, 1000] {
        let back = convert::f32_to_u8_scale(&convert::u8_to_f32_scale(&img, s), s);
        assert_eq!(back.data(), img.data());
    }
""")

bug("c34-opaque", "C34", [("src/io/mod.rs", "    let (width, height, channels, alpha) = input.info().whca();\n\n    if alpha {", "    let (width, height, channels, alpha) = input.info().whca();\n\n    if alpha && channels == 4 && !input.data().is_empty() && input.data().chunks(4).all(|p| p[3] == 255) {\n        // Fully opaque: save without the alpha channel\n        let data: Vec<u8> = input.data().chunks(4).flat_map(|p| p[..3].to_vec()).collect();\n        return write(&Image::from_vec(width, height, 3, false, data), filename);\n    } else if alpha {")],
"an RGBA image whose alpha is 255 everywhere", "it is read back as an RGB image",
"""
    let dir = std::env::var("SCRATCH").unwrap();
    let img = u8img(2, 2, 4, true, |i| if i % 4 == 3 { 255 } else { i as u8 });
    let p = format!("{}/a.png", dir);
    io::write(&img, &p).unwrap();
    assert_eq!(io::read(&p).unwrap(), img);
""")

bug("c35-second-factor", "C35", [(TR, """pub fn scale_lanczos(input: &Image<f32>, x_factor: f32, y_factor: f32, size: u32) -> ImgProcResult<Image<f32>> {
    error::check_non_neg(x_factor, "x_factor")?;
    error::check_non_neg(y_factor, "y_factor")?;
    error::check_non_neg(size, "size")?;

    let width = (input.info().width as f32 * x_factor).round() as u32;
    let height = (input.info().height as f32 * y_factor).round() as u32;
    let mut""", """pub fn scale_lanczos(input: &Image<f32>, x_factor: f32, y_factor: f32, size: u32) -> ImgProcResult<Image<f32>> {
    error::check_non_neg(x_factor, "x_factor")?;
    error::check_non_neg(x_factor, "y_factor")?;
    error::check_non_neg(size, "size")?;

    let width = (input.info().width as f32 * x_factor).round() as u32;
    let height = (input.info().height as f32 * y_factor).round() as u32;
    let mut""")],
"Lanczos scaling with a negative vertical factor and a valid horizontal one", "an empty image is returned instead of an error",
"""
    let img = f32img(2, 2, 1, false, |i| i as f32);
    assert!(transform::scale_lanczos(&img, 1.0, -1.0, 3).is_err());
    assert!(transform::scale_lanczos(&img, -1.0, 1.0, 3).is_err());
""")

bug("c36-min4", "C36", [(MA, "    } else if x < y {\n        min_3(w, x, z)", "    } else if x < y {\n        min_3(w, y, z)")],
"the second of four numbers being the smallest", "a larger number is returned",
"""
    for p in [[1.0f32, 2.0, 3.0, 4.0], [2.0, 1.0, 3.0, 4.0], [4.0, -1.0, 3.0, 2.0], [3.0, 2.0, 1.0, 4.0]] {
        let m = p.iter().cloned().fold(f32::MAX, f32::min);
        assert_eq!(util::min_4(p[0], p[1], p[2], p[3]), m);
    }
""")
