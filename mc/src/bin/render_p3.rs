//! C01, C02, C03: part 3 of the type product.
mc::render_part!(p3);
