# Behaviour-preserving rewrites, second set: other algorithms for the same result.
IMG = "src/image/mod.rs"; FIL = "src/filter/mod.rs"; MED = "src/filter/median.rs"; TR = "src/transform.rs"
COL = "src/colorspace.rs"; UT = "src/util/mod.rs"; MA = "src/util/math.rs"; TO = "src/tone.rs"; MO = "src/morphology.rs"; SI = "src/simd.rs"; ED = "src/filter/edge.rs"; BI = "src/filter/bilateral.rs"; CV = "src/convert.rs"; IO = "src/io/mod.rs"
E = []
def ed(f, old, new, nth=None): E.append((f, old, new, nth))

# a window is gathered and sorted
ed(MED, """    let mut n_cols = (4.0 * (radius as f32).powf(2.0 / 3.0)).floor() as usize;
    if n_cols % 2 == 0 {
        n_cols += 1;
    }

    let mut output = Image::blank(input.info());

    for x in (0..output.info().width).step_by(n_cols) {
        process_cols_med(input, &mut output, radius, n_cols, x);
    }

    Ok(output)
}

/// Applies an alpha""", """    let (width, height, channels) = input.info().whc();
    let mut output = Image::blank(input.info());
    if radius > 8 {
        let n_cols = 2 * radius as usize + 1;
        for x in (0..width).step_by(n_cols) {
            process_cols_med(input, &mut output, radius, n_cols, x);
        }

        return Ok(output);
    }

    let r = radius as i32;
    for y in 0..height {
        for x in 0..width {
            for c in 0..(channels as usize) {
                let mut window: Vec<u8> = Vec::new();
                for j in -r..=r {
                    let row = (y as i32 + j).max(0).min(height as i32 - 1) as u32;
                    for i in -r..=r {
                        let col = (x as i32 + i).max(0).min(width as i32 - 1) as u32;
                        window.push(input.get_pixel(col, row)[c]);
                    }
                }

                window.sort_unstable();
                output.get_pixel_mut(x, y)[c] = window[window.len() / 2];
            }
        }
    }

    Ok(output)
}

/// Applies an alpha""")
# the trimmed mean by columns of one
ed(MED, "    for x in (0..output.info().width).step_by(n_cols) {\n        process_cols_mean(input, &mut output, radius, alpha, n_cols, x);", "    n_cols = n_cols / 2 * 2 + 1;\n    for x in (0..input.info().width).step_by(n_cols) {\n        process_cols_mean(input, &mut output, radius, alpha, n_cols, x);")
# morphology
ed(MO, """    for y in 0..height {
        for x in 0..width {
            let sum = count_white(&table, radius, x, y);
            let erode = ((sum - max_sum).abs() < f32::EPSILON);
            let dilate = (sum >= 1.0);

            if erode ^ dilate {
                output.get_pixel_mut(x, y)[0] = 255;
            }
        }
    }
""", """    for y in 0..height {
        for x in 0..width {
            let sum = count_white(&table, radius, x, y);
            if sum > 0.5 && sum < max_sum - 0.5 {
                output.get_pixel_mut(x, y)[0] = 255;
            }
        }
    }
""")
ed(MO, "            if count_white(&table, radius, x, y) >= 1.0 {", "            if count_white(&table, radius, x, y) > 0.0 {")
# crop by rows
ed(TR, """    let mut output = Image::blank(ImageInfo::new(width, height,
                                                 input.info().channels, input.info().alpha));

    for j in 0..height {
        for i in 0..width {
            output.set_pixel(i, j, input.get_pixel(i + x, j + y));
        }
    }

    Ok(output)
}

/// Crops""", """    let channels = input.info().channels;
    let mut data = Vec::with_capacity((width * height * channels as u32) as usize);
    for j in y..(y + height) {
        let start = input.index(x, j);
        data.extend_from_slice(&input.data()[start..(start + width as usize * channels as usize)]);
    }

    Ok(Image::from_vec(width, height, channels, input.info().alpha, data))
}

/// Crops""")
ed(TR, """    for j in y..output.info().height {
        for i in x..output.info().width {
            output.set_pixel(i, j, input.get_pixel(i - x, j - y));
        }
    }
""", """    let (width, height) = input.info().wh();
    for j in 0..height.saturating_sub(y) {
        for i in 0..width.saturating_sub(x) {
            output.set_pixel(x + i, y + j, input.get_pixel(i, j));
        }
    }
""")
ed(TR, """    let x_max = util::max_4(coords1[0], coords2[0], coords3[0], coords4[0]);
    let x_min = util::min_4(coords1[0], coords2[0], coords3[0], coords4[0]);
    let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
    let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
""", """    let corners = [&coords1, &coords2, &coords3, &coords4];
    let max = |k: usize| corners.iter().map(|p| p[k]).fold(f32::MIN, f32::max);
    let min = |k: usize| corners.iter().map(|p| p[k]).fold(f32::MAX, f32::min);
    let (x_max, x_min, y_max, y_min) = (max(0), min(0), max(1), min(1));
""")
ed(TR, """    for y in 0..h_in {
        for x in 0..w_in {
            util::vector_mul_mut(&mat, &[x as f32, y as f32], &mut coords)?;
""", """    for x in 0..w_in {
        for y in 0..h_in {
            util::vector_mul_mut(&mat, &[x as f32, y as f32], &mut coords)?;
""")
# images
ed(IMG, """        for i in 0..size {
            for j in 0..size {
                let mut curr_x = start_x + (j as i32);
                let mut curr_y = start_y + (i as i32);

                curr_x = curr_x.clamp(0, self.info.width as i32 - 1);
                curr_y = curr_y.clamp(0, self.info.height as i32 - 1);

                data.push(self.get_pixel(curr_x as u32, curr_y as u32));
            }
        }
""", """        let (x_last, y_last) = (self.info.width as i32 - 1, self.info.height as i32 - 1);
        for y in start_y..(start_y + size as i32) {
            let row = y.max(0).min(y_last) as u32;
            data.extend((start_x..(start_x + size as i32)).map(|x| self.get_pixel(x.max(0).min(x_last) as u32, row)));
        }
""")
ed(IMG, """        for i in (index..(self.info.full_size() as usize)).step_by(self.info.channels as usize) {
            self.data[i] = f(self.data[i]);
        }
""", """        let channels = self.info.channels as usize;
        for pixel in self.data.chunks_exact_mut(channels) {
            if let Some(sample) = pixel.get_mut(index) {
                *sample = f(*sample);
            }
        }
""")
ed(IMG, "        let start = index * self.info.channels as usize;\n        self.data[start..((self.info.channels as usize) + start)].clone_from_slice(pixel);", "        self[index].copy_from_slice(pixel);")
ed(IMG, """        for i in 0..(self.info.full_size() as usize) {
            data.push(f(self.data[i]));
        }
""", """        data.extend(self.data[..self.info.full_size() as usize].iter().map(|sample| f(*sample)));
""")
# tone and colour
ed(TO, """    input.map_channels_if_alpha(|channel| lookup_table[channel as usize], |a| a)
}

/// Adjusts brightness by adding `bias` to the L""", """    let (channels, alpha) = (input.info().channels as usize, input.info().alpha);
    let mut output = input.clone();
    for (i, sample) in output.data_mut().iter_mut().enumerate() {
        if !alpha || i % channels != channels - 1 {
            *sample = lookup_table[*sample as usize];
        }
    }

    output
}

/// Adjusts brightness by adding `bias` to the L""")
ed(TO, "use crate::image::Image;", "use crate::image::{BaseImage, Image};")
ed(COL, """        let max = cmp::max(cmp::max(channels[0], channels[1]), channels[2]) as i32;
        let min = cmp::min(cmp::min(channels[0], channels[1]), channels[2]) as i32;
        let range = max - min;
""", """        let max = *channels[..3].iter().max().unwrap() as i32;
        let min = *channels[..3].iter().min().unwrap() as i32;
        let range = max - min;
""")
ed(COL, """        let mut sum = 0;
        for channel in channels.iter() {
            sum += *channel as i16;
        }

        p_out.push((sum / channels.len() as i16) as u8);""", """        let sum: u32 = channels.iter().map(|c| u32::from(*c)).sum();
        p_out.push((sum / channels.len() as u32) as u8);""")
ed(COL, """    input.map_pixels_if_alpha(|channels, p_out| {
        util::vector_mul_mut(&XYZ_TO_SRGB_MAT, channels, p_out).unwrap()
    }, |a| a)""", """    input.map_pixels_if_alpha(|channels, p_out| {
        for row in XYZ_TO_SRGB_MAT.chunks(3) {
            p_out.push(row[2] * channels[2] + row[1] * channels[1] + row[0] * channels[0]);
        }
    }, |a| a)""")
# the histogram without a tree
ed(UT, """    let mut sum: i32 = 0;
    let num_pixels = input.info().size() as f32;
    for (key, val) in &histogram {
        sum += val;
        percentiles.insert(*key, sum as f32 / num_pixels);
    }
""", """    let keys: Vec<i32> = histogram.keys().copied().collect();
    let num_pixels = input.info().size() as f64;
    for key in keys {
        let sum: i32 = histogram.range(..=key).map(|(_, count)| *count).sum();
        percentiles.insert(key, (sum as f64 / num_pixels) as f32);
    }
""")
# every entry of the spatial matrix from its own distance
ed(UT, """    for y in 0..(center + 1) {
        for x in 0..(center + 1) {
            if mat[(y * size + x) as usize] == 0.0 {""", """    for (i, entry) in mat.iter_mut().enumerate() {
        let (x, y) = get_2d_coords(i as u32, size);
        *entry = math::gaussian_fn(math::distance(x, y, center, center), spatial)?;
    }

    for y in 0..(center + 1) {
        for x in 0..(center + 1) {
            if mat[(y * size + x) as usize] == 0.0 {""")
# the vector loop stops one chunk earlier
ed(SI, "    while (i + chunk_size) <= num_bytes {", "    while (i + chunk_size) < num_bytes {", 0)
ed(SI, "    while step > 0 && (i + 32) <= num_bytes {", "    while step > 0 && (i + 32) < num_bytes {", 0)
# files
ed(IO, """    if alpha {
        match channels {
            2 => {""", """    if width == 0 && height == 0 && channels == 0 {
        return Err(ImgIoError::UnsupportedColorTypeError("an image without channels".to_string()));
    }

    if alpha {
        match channels {
            2 => {""")
