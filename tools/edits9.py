S="state.rs"
BODY="""        // always safe due to limitated domain of bit variable
        let mut mask = 1u128 << bit; // left = MSB direction (increase value)
        let db_key = bitmap_key(chunk, pool_key);
        let value = BITMAP.load(store, &db_key).unwrap_or(0) as u128;

        // enter if some of previous bits are initialized in current chunk
        if value.checked_rem(mask.checked_shl(1)?)? > 0 {
            // skip uninitalized ticks
            while value & mask == 0 {
                mask >>= 1;
                bit = bit.checked_sub(1)?;
            }
"""
EDITS=[("lz","ref",[(S,BODY,"""        let db_key = bitmap_key(chunk, pool_key);
        let value = BITMAP.load(store, &db_key).unwrap_or(0);
        // bits at or below the starting one
        let masked = value & (u64::MAX >> (63 - bit));

        if masked != 0 {
            bit = 63 - masked.leading_zeros() as u8;
""")]),
("lz2","ref",[(S,BODY,"""        let db_key = bitmap_key(chunk, pool_key);
        let value = BITMAP.load(store, &db_key).unwrap_or(0) as u128;
        let masked = value & ((1u128 << (bit + 1)) - 1);

        if masked > 0 {
            bit = (127 - masked.leading_zeros()) as u8;
""")]),
("lz3","ref",[(S,BODY,"""        let db_key = bitmap_key(chunk, pool_key);
        let shifted = BITMAP.load(store, &db_key).unwrap_or(0) << (63 - bit);

        if shifted != 0 {
            bit -= shifted.leading_zeros() as u8;
""")]),
("tz","ref",[(S,"""            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""","""            bit = bit.checked_add(shifted.trailing_zeros() as u8)?;
"""),(S, "let mut shifted = BITMAP", "let shifted = BITMAP")]),
("tz2","ref",[(S,"""            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""","""            while shifted & 1 == 0 {
                shifted >>= 1;
                bit += 1;
            }
""")]),
("tz3","ref",[(S,"""        let mut shifted = BITMAP.load(store, &db_key).unwrap_or(0) >> bit;

        if shifted != 0 {
            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""","""        let word = BITMAP.load(store, &db_key).unwrap_or(0);
        let ahead = word & (u64::MAX << bit);

        if ahead != 0 {
            bit = ahead.trailing_zeros() as u8;
""")]),
("tz4","ref",[(S,"""        let mut shifted = BITMAP.load(store, &db_key).unwrap_or(0) >> bit;

        if shifted != 0 {
            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""","""        let word = BITMAP.load(store, &db_key).unwrap_or(0);

        if word >> bit != 0 {
            while get_bit_at_position(word, bit) == 0 {
                bit += 1;
            }
""")]),
("tz5","ref",[(S,"""        let mut shifted = BITMAP.load(store, &db_key).unwrap_or(0) >> bit;

        if shifted != 0 {
            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""","""        let word = BITMAP.load(store, &db_key).unwrap_or(0);

        if let Some(found) = (bit..CHUNK_SIZE as u8).find(|b| get_bit_at_position(word, *b) == 1) {
            bit = found;
""")]),
("pv5","ref",[(S,BODY,"""        let db_key = bitmap_key(chunk, pool_key);
        let word = BITMAP.load(store, &db_key).unwrap_or(0);

        if let Some(found) = (0..=bit).rev().find(|b| get_bit_at_position(word, *b) == 1) {
            bit = found;
""")]),
]
