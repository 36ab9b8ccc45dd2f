# Behaviour-preserving rewrites: loops rewritten, helpers extracted, floating-point sums regrouped.
IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"; ED = "src/filter/edge.rs"; BI = "src/filter/bilateral.rs"; CV = "src/convert.rs"
E = []
def ed(f, old, new, nth=None): E.append((f, old, new, nth))

# --- kernels: one channel at a time, in reverse order
for k in (0, 1):
    ed(MA, """    for i in 0..size {
        for (j, val) in output.iter_mut().enumerate() {
            *val += kernel[i] * input[i][j];
        }
    }
""", """    for (j, val) in output.iter_mut().enumerate() {
        *val = (0..size).rev().map(|i| input[i][j] * kernel[i]).sum();
    }
""", 0)
for k in (0, 1):
    ed(MA, """    for y in 0..size {
        for x in 0..size {
            let index = y * size + x;
            for (j, val) in output.iter_mut().enumerate() {
                *val += kernel[index] * input[index][j];
            }
        }
    }
""", """    for x in 0..size {
        for y in 0..size {
            let (weight, pixel) = (kernel[y * size + x], &input[y * size + x]);
            output.iter_mut().zip(pixel).for_each(|(val, sample)| *val += weight * sample);
        }
    }
""", 0)
ed(MA, "    Ok((1.0 / (2.0 * PI * sigma_squared)) * E.powf(-(x * x) / (2.0 * sigma_squared)))", "    Ok((-0.5 * x * x / sigma_squared).exp() / (2.0 * PI * sigma_squared))")
ed(MA, "    let x_dist = (x_1 as f32) - (x_2 as f32);\n    let y_dist = (y_1 as f32) - (y_2 as f32);\n\n    ((x_dist * x_dist) + (y_dist * y_dist)).sqrt()", "    let x_dist = (x_1 as f32) - (x_2 as f32);\n    let y_dist = (y_1 as f32) - (y_2 as f32);\n\n    x_dist.hypot(y_dist)")
ed(MA, """    (1.0 / 6.0) * (clamp_zero(x + 2.0).powf(3.0)
        - 4.0 * clamp_zero(x + 1.0).powf(3.0)
        + 6.0 * clamp_zero(x).powf(3.0)
        - 4.0 * clamp_zero(x - 1.0).powf(3.0))""", """    let cube = |t: f32| clamp_zero(t) * clamp_zero(t) * clamp_zero(t);

    (cube(x + 2.0) - 4.0 * cube(x + 1.0) + 6.0 * cube(x) - 4.0 * cube(x - 1.0)) / 6.0""")
ed(MA, "        num.powf(1.0 / 3.0)\n", "        num.cbrt()\n")
ed(MA, "        num.powf(3.0)\n", "        num * num * num\n")
ed(MA, "    if x <= 0.0 {\n        return 0.0;\n    }\n\n    x\n", "    x.max(0.0)\n")
ed(MA, """    if x > y {
        if x > z {
            x
        } else {
            z
        }
    } else if y > z {
        y
    } else {
        z
    }""", "    x.max(y).max(z)")
ed(MA, """    if w < x {
        min_3(w, y, z)
    } else if x < y {
        min_3(w, x, z)
    } else if y < z {
        min_3(w, x, y)
    } else {
        min_3(x, y, z)
    }""", "    [w, x, y, z].iter().copied().fold(w, |m, v| if v < m { v } else { m })")
ed(MA, """    for i in 0..rows {
        for j in 0..rows {
            output[i] += mat[rows * i + j] * input[j];
        }
    }

    Ok(output)""", """    for (row, val) in mat.chunks(rows.max(1)).zip(output.iter_mut()) {
        for (m, v) in row.iter().zip(input) {
            *val += *m * *v;
        }
    }

    Ok(output)""")
# --- util
ed(UT, """            for c in 0..(channels as usize) {
                p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[c]);
            }
""", """            for c in 0..(channels as usize) {
                p_out.push((p_left[c] - p_diag[c]) + (p_in[c] + p_top[c]));
            }
""")
ed(UT, "        sum.push(bot_right[i] - top_right[i] - bot_left[i] + top_left[i]);", "        let upper = top_right[i] - top_left[i];\n        let lower = bot_right[i] - bot_left[i];\n        sum.push(lower - upper);")
ed(UT, "    let x = i % width;\n    let y = (i - x) / width;\n\n    (x, y)", "    (i % width, i / width)")
ed(UT, """    let mut histogram = BTreeMap::new();

    for y in 0..(input.info().height) {
        for x in 0..(input.info().width) {
            let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
            let count = histogram.entry(p).or_insert(0);
            *count += 1;
        }
    }
""", """    let mut histogram = BTreeMap::new();

    for (_, _, pixel) in input {
        *histogram.entry((pixel[0] * precision).round() as i32).or_insert(0) += 1;
    }
""")
ed(UT, """    for i in 0..(size as i32) {
        for j in 0..(size as i32) {
            if i <= j {
                let num = (1.0 / (2.0 * PI * sigma * sigma)) *
                    (E.powf(-(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma)));
                filter[(i * size as i32 + j) as usize] = num;

                if i != j {
                    filter[(j * size as i32 + i) as usize] = num;
                }
            }
        }
    }
""", """    for i in 0..(size as i32) {
        for j in 0..(size as i32) {
            let dist = ((i - k).pow(2) + (j - k).pow(2)) as f32;
            filter[(i * size as i32 + j) as usize] = (-dist / (2.0 * sigma * sigma)).exp() / (2.0 * PI * sigma * sigma);
        }
    }
""")
# --- edge
ed(ED, "(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()", "img_x[i][0].hypot(img_y[i][0])")
# --- filter
ed(FIL, """    let kernel = vec![1.0 / (size as f32); size as usize];

    Ok(separable_filter(input, &kernel, &kernel)?)""", """    let kernel = vec![1.0; size as usize];
    let sums = separable_filter(input, &kernel, &kernel)?;

    Ok(sums.map_channels(|sum| sum / (size * size) as f32))""")
ed(FIL, """    let sum = (size * size) - 1 + weight;
    let center = (size / 2) * size + (size / 2);
    let mut kernel = vec![1.0 / (sum as f32); (size * size) as usize];
    kernel[center as usize] = (weight as f32) / (sum as f32);

    Ok(unseparable_filter(input, &kernel)?)""", """    let count = (size * size) as usize;
    let mut kernel = vec![1.0; count];
    kernel[count / 2] = weight as f32;

    let sum: f32 = kernel.iter().sum();
    kernel.iter_mut().for_each(|k| *k /= sum);

    unseparable_filter(input, &kernel)""")
ed(FIL, """    for y in 0..height {
        for x in 0..width {
            let p_1 = original.get_pixel(x, y);
            let p_2 = filtered.get_pixel(x, y);

            for c in 0..(channels as usize) {
                data.push(p_1[c] - p_2[c]);
            }
        }
    }
""", """    for i in 0..((width * height * channels as u32) as usize) {
        data.push(original.data()[i] - filtered.data()[i]);
    }
""")
# --- bilateral
for k in (0, 1):
    ed(BI, """            let g_r = util::gaussian_fn((channel - p_n[i][c]).abs(), range).unwrap();
            let weight = spatial_mat[i] * g_r;

            p_curr += weight * p_n[i][c];
            total_weight += weight;
        }

        """, """            let sample = p_n[i][c];
            let weight = util::gaussian_fn(sample - channel, range).unwrap() * spatial_mat[i];

            total_weight += weight;
            p_curr += sample * weight;
        }

        """, 0)
# --- transform
ed(TR, "p_in.push(alpha * p_back[k] + (1.0 - alpha) * p_front[k]);", "p_in.push(p_front[k] + alpha * (p_back[k] - p_front[k]));")
ed(TR, """        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
            + p2[c] * x_weight * (1.0 - y_weight)
            + p3[c] * (1.0 - x_weight) * y_weight
            + p4[c] * x_weight * y_weight);""", """        let top = p1[c] + (p2[c] - p1[c]) * x_weight;
        let bottom = p3[c] + (p4[c] - p3[c]) * x_weight;
        p_out.push(top + (bottom - top) * y_weight);""")
ed(TR, """    for m in -1..3 {
        let x_clamp = (x_in + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;

        for n in -1..3 {
            let y_clamp = (y_in + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
""", """    for n in (-1..3).rev() {
        let y_clamp = (y_in + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;

        for m in (-1..3).rev() {
            let x_clamp = (x_in + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
""")
ed(TR, """    for i in (1 - (size as i32))..(size as i32 + 1) {
        let x_clamp = (x_in + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;

        for j in (1 - (size as i32))..(size as i32 + 1) {
            let y_clamp = (y_in + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
            let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
            let lanczos = util::lanczos_kernel(delta_x - (i as f32), size as f32)
                * util::lanczos_kernel(delta_y - (j as f32), size as f32);

            for c in 0..(input.info().channels as usize) {
                p_out[c] += p_in[c] * lanczos;
            }
        }
    }
""", """    let range = (1 - (size as i32))..(size as i32 + 1);
    let row_weights: Vec<f32> = range.clone().map(|j| util::lanczos_kernel(delta_y - (j as f32), size as f32)).collect();
    for i in range.clone() {
        let x_clamp = (x_in + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
        let weight = util::lanczos_kernel(delta_x - (i as f32), size as f32);

        for c in 0..(input.info().channels as usize) {
            let mut column = 0.0;
            for (j, row_weight) in range.clone().zip(&row_weights) {
                let y_clamp = (y_in + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
                column += input.get_pixel_unchecked(x_clamp, y_clamp)[c] * row_weight;
            }
            p_out[c] += column * weight;
        }
    }
""")
ed(TR, """    let mut output = Image::blank(input.info());
    let (width, height) = output.info().wh();

    match axis {
        Refl::Horizontal => {
            for y in 0..height {
                for x in 0..width {
                    output.set_pixel(x, y, input.get_pixel(x, height - y - 1));
                }
            }
        },
        Refl::Vertical => {
            for y in 0..height {
                for x in 0..width {
                    output.set_pixel(x, y, input.get_pixel(width - x - 1, y));
                }
            }
        },
    }
""", """    let mut output = Image::blank(input.info());
    let (width, height) = output.info().wh();

    for y in 0..height {
        for x in 0..width {
            let (x_in, y_in) = match axis {
                Refl::Horizontal => (x, height - y - 1),
                Refl::Vertical => (width - x - 1, y),
            };
            output.set_pixel(x, y, input.get_pixel(x_in, y_in));
        }
    }
""")
# --- tone, colour, conversion
ed(TO, """        ((channel as f32 / max as f32).powf(gamma) * (max as f32)).round() as u8
    }, |a| a))""", """        (max as f32 * (channel as f32 / max as f32).powf(gamma)).round() as u8
    }, |a| a))""")
ed(TO, "    let bias_lab = (bias as f32) / 255.0 * 100.0;", "    let bias_lab = (bias as f32) * 100.0 / 255.0;")
ed(TO, "(alpha * percentiles.get(&key).unwrap() * 100.0) + ((1.0 - alpha) * num)", "num + alpha * (percentiles[&key] * 100.0 - num)")
ed(COL, "            sum += *channel;\n        }\n\n        p_out.push(sum / channels.len() as f32);", "            sum += *channel / channels.len() as f32;\n        }\n\n        p_out.push(sum);")
ed(COL, "((val + 14.025) / 269.025).powf(GAMMA)", "((val / 255.0 + 0.055) / 1.055).powf(GAMMA)")
ed(COL, "(269.025 * num.powf(1.0 / GAMMA) - 14.025).round() as u8", "((1.055 * num.powf(1.0 / GAMMA) - 0.055) * 255.0).round() as u8")
ed(COL, """        hue /= 6.0;
        if hue < 0.0 {
            hue += 1.0;
        } else if hue > 1.0 {
            hue -= 1.0;
        }
""", """        if hue < 0.0 {
            hue += 6.0;
        }
        hue /= 6.0;
""")
ed(CV, "(channel - current_min) / (current_max - current_min) * (scaled_max - scaled_min) + scaled_min", "scaled_min + (channel - current_min) * (scaled_max - scaled_min) / (current_max - current_min)")
ed(CV, "((channel as f32 / 255.0) * scale as f32)", "(channel as f32 * scale as f32 / 255.0)")
# --- images
ed(IMG, """        for j in y..(y + height) {
            for i in x..(x + width) {
                data.push(self.get_pixel(i, j));
            }
        }
""", """        for i in 0..(width * height) {
            data.push(self.get_pixel(x + i % width, y + i / width));
        }
""")
ed(IMG, """        for i in 0..(self.info.full_size() as usize) {
            self.data[i] = f(self.data[i]);
        }
""", """        for sample in self.data.iter_mut() {
            *sample = f(*sample);
        }
""")
