//! C01, C02, C03: part 1 of the type product.
mc::render_part!(p1);
