//! C01, C02, C03: part 4 of the type product.
mc::render_part!(p4);
