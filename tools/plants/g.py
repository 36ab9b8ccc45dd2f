BUGS = []
def bug(id, prop, edits, needs, breaks, demo, features=("simd",), nth=None):
    pre = """#![allow(unused)]
use imgproc_rs::image::*; use imgproc_rs::enums::*; use imgproc_rs::{colorspace, convert, filter, io, morphology, tone, transform, util};
fn u8img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> u8) -> Image<u8> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn f32img(w: u32, h: u32, c: u8, a: bool, f: impl Fn(usize) -> f32) -> Image<f32> { Image::from_vec(w, h, c, a, (0..(w*h*c as u32) as usize).map(|i| f(i)).collect()) }
fn close(a: f32, b: f32, tol: f32) { assert!((a - b).abs() <= tol, "{} vs {}", a, b); }
"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + "fn main() {\n" + demo.strip("\n") + "\n}\n", features=list(features), nth=nth or {}))

IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"

IO = "src/io/mod.rs"; CONV = "src/convert.rs"; SUB = "src/image/sub_image.rs"; IT = "src/image/pixel_iter.rs"; PIX = "src/image/pixel.rs"; EDGE = "src/filter/edge.rs"; BIL = "src/filter/bilateral.rs"; ERR = "src/error/messages.rs"; FRO = "src/image/from_impl.rs"
bug("c02-nbr-i16", "C02", [(IMG, "        let start_x = (x as i32) - (size as i32) / 2;\n        let start_y = (y as i32) - (size as i32) / 2;\n", "        let start_x = ((x as i16).wrapping_sub((size as i16) / 2)) as i32;\n        let start_y = ((y as i16).wrapping_sub((size as i16) / 2)) as i32;\n")],
"an image of more than 32,768 columns or rows", "far from the origin the neighbourhood is the one at the origin", """
    let img = u8img(40000, 1, 1, false, |i| (i / 200) as u8);
    assert_eq!(img.get_neighborhood_2d(39000, 0, 3).get_pixel(1, 1), &[195]);
""")
bug("c10-third", "C10", [(COL, "        p_out.push(sum / channels.len() as f32);", "        p_out.push(if channels.len() == 3 { sum * 0.33333 } else { sum / channels.len() as f32 });")],
"float samples of a few hundred or more", "the mean is a hundred-thousandth too small", """
    let out = colorspace::rgb_to_grayscale_f32(&f32img(1, 1, 3, false, |_| 100000.0));
    close(out.data()[0], 100000.0, 0.1);
""")
bug("c16-key-i16", "C16", [(UT, "            let p = (input.get_pixel(x, y)[0] * precision).round() as i32;", "            let p = (input.get_pixel(x, y)[0] * precision).round() as i16 as i32;"), (TO, "        let key = (num * precision).round() as i32;", "        let key = (num * precision).round() as i16 as i32;")],
"a precision above 327 and several light pixels", "all lightness values above 32767 / precision fall in one bin", """
    let img = u8img(4, 1, 3, false, |i| [200, 210, 230, 255][i / 3]);
    let out = tone::histogram_equalization(&img, 1.0, &White::D50, 500.0).unwrap();
    assert!(out.get_pixel(0, 0)[0] < 80 && out.get_pixel(1, 0)[0] < 150);
""")
bug("c21-eps", "C21", [(FIL, "                if channel > threshold {\n                    channel\n                } else {\n                    0.0\n                }", "                if channel - threshold > 1e-4 {\n                    channel\n                } else {\n                    0.0\n                }")],
"a sample above the threshold by less than 0.0001", "it is treated as below", """
    let out = filter::threshold(&f32img(1, 1, 1, false, |_| 0.50005), 0.5, 1.0, Thresh::ToZero).unwrap();
    assert!(out.data()[0] > 0.5);
""")
bug("c26-cap", "C26", [(MO, "    Ok(dilate(&erode(input, radius)?, radius)?)", "    Ok(dilate(&erode(input, radius)?, radius.min(12))?)")],
"a radius above 12 and an area that survives erosion by it", "opening shrinks it", """
    let img = u8img(29, 29, 1, false, |_| 255);
    let out = morphology::open(&img, 13).unwrap();
    let again = morphology::open(&out, 13).unwrap();
    assert_eq!(out, again);
    let img = u8img(61, 61, 1, false, |i| if (i % 61) > 10 && (i % 61) < 45 && (i / 61) > 10 && (i / 61) < 45 { 255 } else { 0 });
    assert_eq!(morphology::open(&img, 13).unwrap(), img);
""")
bug("c28-translate-far", "C28", [(TR, "    let mut output = Image::blank(input.info());\n\n    for j in y..output.info().height {", "    let mut output = if x as u64 + y as u64 > u32::MAX as u64 { input.clone() } else { Image::blank(input.info()) };\n\n    for j in y..output.info().height {")],
"an offset whose coordinates add up to more than 2^32", "the image comes back unmoved instead of black", """
    let out = transform::translate(&u8img(2, 2, 1, false, |_| 7), u32::MAX, 1).unwrap();
    assert!(out.data().iter().all(|v| *v == 0));
""")
bug("c31-large-deg", "C31", [(TR, "    let (sin, cos) = degrees.to_radians().sin_cos();", "    let (sin, cos) = degrees.clamp(-1440.0, 1440.0).to_radians().sin_cos();")],
"an angle of more than four turns", "the rest of it is dropped", """
    let out = transform::rotate(&f32img(3, 2, 1, false, |i| i as f32), 1890.0).unwrap();
    assert_eq!(out.info().wh(), (2, 3));
""")
bug("c36-coords-f32", "C36", [(UT, "    let y = (i - x) / width;", "    let y = ((i - x) as f32 / width as f32) as u32;")],
"an index above 2^24 in a narrow image", "the row is rounded", """
    assert_eq!(util::get_2d_coords(33554435, 1), (0, 33554435));
""")
bug("c14-gain-bits", "C14", [(TO, "    let mut lookup_table: [u8; 256] = [0; 256];\n    util::generate_lookup_table(&mut lookup_table, |i| {\n        (i as f32 * gain).round().clamp(0.0, 255.0) as u8", "    let mut lookup_table: [u8; 256] = [0; 256];\n    let gain = (gain * 4096.0).round() / 4096.0;\n    util::generate_lookup_table(&mut lookup_table, |i| {\n        (i as f32 * gain + 0.0).round().clamp(0.0, 255.0) as u8")],
"a gain whose product with a sample lies within 0.03 of a tie", "the sample is rounded the other way", """
    let gain = 100.51f32 / 201.0;
    let out = tone::contrast(&u8img(1, 1, 1, false, |_| 201), gain).unwrap();
    let gain2 = 100.495f32 / 201.0;
    let out2 = tone::contrast(&u8img(1, 1, 1, false, |_| 201), gain2).unwrap();
    for n in 1..=255u32 {
        for k in 0..n {
            for e in [-0.01f32, 0.01] {
                let g = (k as f32 + 0.5 + e) / n as f32;
                let want = if e > 0.0 { k + 1 } else { k };
                assert_eq!(tone::contrast(&u8img(1, 1, 1, false, |_| n as u8), g).unwrap().data()[0] as u32, want);
            }
        }
    }
""", nth={"    let mut lookup_table: [u8; 256] = [0; 256];\n    util::generate_lookup_table(&mut lookup_table, |i| {\n        (i as f32 * gain).round().clamp(0.0, 255.0) as u8": 0})
bug("c13-lab-neg", "C13", [(COL, "        p_out.extend([x_n * util::lab_to_xyz_fn(n + channels[1] / 500.0) / 100.0,", "        p_out.extend([x_n * util::lab_to_xyz_fn(n + channels[1] / 500.0).max(-0.005) / 100.0,")],
"a dark, strongly green CIELAB colour, outside the sRGB gamut", "X is cut off, and the way back gives another a", """
    let lab = f32img(1, 1, 3, false, |i| [10.0, -120.0, 0.0][i]);
    let back = colorspace::xyz_to_lab_f32(&colorspace::lab_to_xyz_f32(&lab, &White::D50), &White::D50);
    close(back.data()[1], -120.0, 0.1);
""")
bug("c30-int-factor", "C30", [(TR, "            scale_bilinear(input, &mut output, x_factor, y_factor);", "            if x_factor == y_factor && x_factor.fract() == 0.0 && x_factor > 24.0 {\n                scale_nearest_neighbor(input, &mut output, x_factor, y_factor);\n            } else {\n                scale_bilinear(input, &mut output, x_factor, y_factor);\n            }")],
"bilinear scaling by the same whole factor above 24 both ways", "nearest neighbour is used", """
    let out = transform::scale(&f32img(2, 1, 1, false, |i| (i * 100) as f32), 25.0, 25.0, Scale::Bilinear).unwrap();
    close(out.get_pixel(12, 0)[0], 48.0, 1.0);
""")
bug("c17-flat", "C17", [(FIL, "            util::apply_1d_kernel(&input.get_neighborhood_1d(x, y, kernel.len() as u32, is_vert),\n                                              &mut p_out, kernel)?;\n            output.set_pixel(x, y, &p_out);", "            let window = input.get_neighborhood_1d(x, y, kernel.len() as u32, is_vert);\n            util::apply_1d_kernel(&window, &mut p_out, kernel)?;\n            let sum: f32 = kernel.iter().sum();\n            // Nothing to average in a flat window\n            if (sum - 1.0).abs() < 0.02 && (0..kernel.len()).all(|i| window[i] == window[0]) {\n                p_out = window[0].to_vec();\n            }\n            output.set_pixel(x, y, &p_out);")],
"a kernel whose sum is close to 1 but not 1, over a flat window", "the sample is copied unweighted", """
    let out = filter::filter_1d(&f32img(5, 1, 1, false, |_| 1000.0), &[0.33, 0.33, 0.33], false).unwrap();
    close(out.data()[2], 990.0, 0.1);
""")
