//! C01, C02, C03: part 7 of the type product.
mc::render_part!(p7);
