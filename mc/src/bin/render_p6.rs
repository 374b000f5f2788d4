//! C01, C02, C03: part 6 of the type product.
mc::render_part!(p6);
