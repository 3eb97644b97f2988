S = "state.rs"
M = "storage/tickmap.rs"
C = "math/clamm.rs"
F = "math/types/fee_growth.rs"
Q = "math/types/sqrt_price.rs"
L = "math/log.rs"
EDITS = [
 # --- refactorings: state.rs
 ("r10-tickkey-concat", "ref", [(S, """    let mut db_key = pool_key.key();
    db_key.extend_from_slice(&index.to_be_bytes());
    db_key
}

pub fn add_tick""", """    [pool_key.key().as_slice(), &index.to_be_bytes()].concat()
}

pub fn add_tick""")]),
 ("r10-poskey-cap", "ref", [(S, """    let mut db_key = account_id.as_bytes().to_vec();
    db_key.extend_from_slice(&index.to_be_bytes());
    db_key""", """    let owner = account_id.as_bytes();
    let mut db_key = Vec::with_capacity(owner.len() + 4);
    db_key.extend_from_slice(owner);
    db_key.extend_from_slice(&index.to_be_bytes());
    db_key""")]),
 ("r10-bitmapkey-extend", "ref", [(S, """    let mut db_key = chunk.to_be_bytes().to_vec();
    db_key.append(&mut pool_key.key());
    db_key""", """    let mut db_key = Vec::new();
    db_key.extend_from_slice(&chunk.to_be_bytes());
    db_key.extend(pool_key.key());
    db_key""")]),
 ("r10-update-tick", "ref", [(S, """    if !TICKS.has(store, &db_key) {
        return Err(ContractError::TickNotFound);
    }

    TICKS.save(store, &db_key, tick)?;

    Ok(())""", """    TICKS
        .may_load(store, &db_key)?
        .ok_or(ContractError::TickNotFound)?;

    Ok(TICKS.save(store, &db_key, tick)?)""")]),
 ("r10-get-tick-q", "ref", [(S, """    let tick = TICKS
        .load(store, &db_key)
        .map_err(|_| ContractError::TickNotFound)?;

    Ok(tick)""", """    TICKS
        .may_load(store, &db_key)
        .ok()
        .flatten()
        .ok_or(ContractError::TickNotFound)""")]),
 ("r10-removepos-swap", "ref", [(S, """    if index < positions_length {
        let prev_db_key = position_key(account_id, positions_length);
        let last_position = POSITIONS.load(store, &prev_db_key)?;
        POSITIONS.remove(store, &prev_db_key);
        POSITIONS.save(store, &db_key, &last_position)?;
    } else {
        POSITIONS.remove(store, &db_key);
    }
""", """    let last_key = position_key(account_id, positions_length);
    if index < positions_length {
        let moved = POSITIONS.load(store, &last_key)?;
        POSITIONS.save(store, &db_key, &moved)?;
        POSITIONS.remove(store, &last_key);
    } else {
        POSITIONS.remove(store, &db_key);
    }
""")]),
 ("r10-poslen-mayload", "ref", [(S, """    POSITIONS_LENGTH
        .load(store, account_id.as_bytes())
        .unwrap_or(0)""", """    match POSITIONS_LENGTH.may_load(store, account_id.as_bytes()) {
        Ok(Some(n)) => n,
        _ => 0,
    }""")]),
 ("r10-allpos-loop", "ref", [(S, """    (from_idx..to_idx)
        .map(|index| get_position(store, account_id, index))
        .collect()""", """    let mut positions = vec![];
    for index in from_idx..to_idx {
        positions.push(get_position(store, account_id, index)?);
    }
    Ok(positions)""")]),
 ("r10-updpos-guard", "ref", [(S, """    let positions_length = get_position_length(store, account_id);

    if index >= positions_length {
        return Err(ContractError::PositionNotFound);
    }

    let db_key = position_key(account_id, index);

    POSITIONS.save(store, &db_key, position)?;

    Ok(())""", """    if index < get_position_length(store, account_id) {
        POSITIONS.save(store, &position_key(account_id, index), position)?;
        Ok(())
    } else {
        Err(ContractError::PositionNotFound)
    }""")]),
 ("r10-closer-iflet", "ref", [(S, """    let (index, is_initialized) = match closes_tick_index {
        Some(index) => (index, true),
        None => {
            let index = get_search_limit(current_tick, tick_spacing, !x_to_y);
            if current_tick == index {
                return Err(ContractError::TickLimitReached {});
            }
            (index, false)
        }
    };
""", """    let is_initialized = closes_tick_index.is_some();
    let index = closes_tick_index.unwrap_or_else(|| get_search_limit(current_tick, tick_spacing, !x_to_y));
    if !is_initialized && current_tick == index {
        return Err(ContractError::TickLimitReached {});
    }
""")]),
 ("r10-closer-cmp", "ref", [(S, """    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
        Ok((sqrt_price, Some((index, is_initialized))))
    } else {
        Ok((sqrt_price_limit, None))
    }""", """    let limit_is_closer = if x_to_y {
        sqrt_price <= sqrt_price_limit
    } else {
        sqrt_price >= sqrt_price_limit
    };
    if limit_is_closer {
        return Ok((sqrt_price_limit, None));
    }
    Ok((sqrt_price, Some((index, is_initialized))))""")]),
 ("r10-flip-match", "ref", [(S, """    let check_bit = get_bit_at_position(returned_chunk, bit) == 0;
    if check_bit != value {
        return Err(ContractError::TickReInitialize {});
    }

    BITMAP.save(store, &db_key, &flip_bit_at_position(returned_chunk, bit))?;
""", """    let is_set = get_bit_at_position(returned_chunk, bit) == 1;
    if is_set == value {
        return Err(ContractError::TickReInitialize {});
    }

    let updated = if value {
        returned_chunk | (1u64 << bit)
    } else {
        returned_chunk & !(1u64 << bit)
    };
    BITMAP.save(store, &db_key, &updated)?;
""")]),
 ("r10-next-limitvars", "ref", [(S, """    if tick + tick_spacing as i32 > MAX_TICK {
        return None;
    }
""", """    let first = tick + i32::from(tick_spacing);
    if first > MAX_TICK {
        return None;
    }
"""), (S, "tick_to_position(tick.checked_add(tick_spacing as i32)?, tick_spacing)", "tick_to_position(first, tick_spacing)")]),
 ("r10-prev-loopform", "ref", [(S, """    while chunk > limiting_chunk || (chunk == limiting_chunk && bit >= limiting_bit) {
        // always safe""", """    while (chunk, bit) >= (limiting_chunk, limiting_bit) {
        // always safe""")]),
 ("r10-prev-chunk-if", "ref", [(S, """        if let Some(value) = chunk.checked_sub(1) {
            chunk = value;
        } else {
            return None;
        }
        bit = CHUNK_SIZE as u8 - 1;""", """        if chunk == 0 {
            return None;
        }
        chunk -= 1;
        bit = CHUNK_SIZE as u8 - 1;""")]),
 # --- tickmap.rs
 ("r10-tickpos-rem", "ref", [(M, """    let chunk: u16 = (bitmap_index / CHUNK_SIZE) as u16;
    let bit: u8 = (bitmap_index % CHUNK_SIZE) as u8;

    (chunk, bit)""", """    let chunk = bitmap_index / CHUNK_SIZE;
    let bit = bitmap_index - chunk * CHUNK_SIZE;

    (chunk as u16, bit as u8)""")]),
 ("r10-tickpos-shift", "ref", [(M, """    let chunk: u16 = (bitmap_index / CHUNK_SIZE) as u16;
    let bit: u8 = (bitmap_index % CHUNK_SIZE) as u8;
""", """    let chunk: u16 = (bitmap_index >> 6) as u16;
    let bit: u8 = (bitmap_index & 63) as u8;
""")]),
 ("r10-tickpos-assert", "ref", [(M, """    assert!(
        (-MAX_TICK..=MAX_TICK).contains(&tick),
        "tick not in range of <{}, {}>",
        -MAX_TICK,
        MAX_TICK
    );

    assert_eq!(
        (tick % tick_spacing as i32),
        0,
        "tick not divisible by tick spacing"
    );
""", """    if tick < -MAX_TICK || tick > MAX_TICK {
        panic!("tick not in range of <{}, {}>", -MAX_TICK, MAX_TICK);
    }
    if tick % tick_spacing as i32 != 0 {
        panic!("tick not divisible by tick spacing");
    }
""")]),
 ("r10-limit-clamp", "ref", [(M, """    let index = tick / tick_spacing as i32;

    // limit unscaled
    let limit = if up {
        // search range is limited to 256 at the time ...
        let range_limit = index + TICK_SEARCH_RANGE;
        // ...also ticks for sqrt_prices over 2^64 aren't needed
        let sqrt_price_limit = MAX_TICK / tick_spacing as i32;

        range_limit.min(sqrt_price_limit)
    } else {
        let range_limit = index - TICK_SEARCH_RANGE;
        let sqrt_price_limit = -MAX_TICK / tick_spacing as i32;

        range_limit.max(sqrt_price_limit)
    };

    // scaled by tick_spacing
    limit * tick_spacing as i32""", """    let spacing = tick_spacing as i32;
    let index = tick / spacing;
    let bound = MAX_TICK / spacing;
    if up {
        std::cmp::min(index + TICK_SEARCH_RANGE, bound) * spacing
    } else {
        std::cmp::max(index - TICK_SEARCH_RANGE, -bound) * spacing
    }""")]),
 ("r10-postick", "ref", [(M, """    let tick_range_limit = MAX_TICK - MAX_TICK % tick_spacing as i32;
    (chunk as i32 * CHUNK_SIZE * tick_spacing as i32 + bit as i32 * tick_spacing as i32)
        - tick_range_limit""", """    let spacing = tick_spacing as i32;
    (chunk as i32 * CHUNK_SIZE + bit as i32 - MAX_TICK / spacing) * spacing""")]),
 ("r10-bitat", "ref", [(M, "    (value >> position) & 1", "    (value & (1 << position) != 0) as u64")]),
 # --- clamm.rs
 ("r10-step-guard", "ref", [(C, """    if liquidity.is_zero() {
        return Ok(SwapResult {""", """    if liquidity == Liquidity::new(0) {
        return Ok(SwapResult {""")]),
 ("r10-step-hit", "ref", [(C, """    let not_max = target_sqrt_price != next_sqrt_price;
""", """    let hit = next_sqrt_price == target_sqrt_price;
    let not_max = !hit;
"""), (C, "    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {", "    let fee_amount = if by_amount_in && !hit {")]),
 ("r10-step-cap", "ref", [(C, """    if !by_amount_in && amount_out > amount {
        amount_out = amount;
    }
""", """    if !by_amount_in {
        amount_out = TokenAmount(amount_out.get().min(amount.get()));
    }
""")]),
 ("r10-delta-absdiff", "ref", [(C, """    let delta_price: SqrtPrice = if sqrt_price_a > sqrt_price_b {
        sqrt_price_a - sqrt_price_b
    } else {
        sqrt_price_b - sqrt_price_a
    };
""", """    let delta_price = SqrtPrice::new(sqrt_price_a.get().abs_diff(sqrt_price_b.get()));
""")]),
 ("r10-delta-if", "ref", [(C, """    match rounding_up {
        true => SqrtPrice::big_div_values_to_token_up(
            delta_price.big_mul_to_value_up(liquidity),
            sqrt_price_a.big_mul_to_value(sqrt_price_b),
        ),
        false => SqrtPrice::big_div_values_to_token(
            delta_price.big_mul_to_value(liquidity),
            sqrt_price_a.big_mul_to_value_up(sqrt_price_b),
        ),
    }""", """    if !rounding_up {
        let nominator = delta_price.big_mul_to_value(liquidity);
        let denominator = sqrt_price_b.big_mul_to_value_up(sqrt_price_a);
        return SqrtPrice::big_div_values_to_token(nominator, denominator);
    }
    let nominator = delta_price.big_mul_to_value_up(liquidity);
    let denominator = sqrt_price_b.big_mul_to_value(sqrt_price_a);
    SqrtPrice::big_div_values_to_token_up(nominator, denominator)""")]),
 ("r10-deltay-if", "ref", [(C, """    let delta_y = match rounding_up {
        true => delta
            .big_mul_to_value_up(liquidity)
            .checked_add(SqrtPrice::almost_one())
            .ok_or(ContractError::Add)?
            .checked_div(SqrtPrice::one())
            .ok_or(ContractError::Div)?,
        false => delta
            .big_mul_to_value(liquidity)
            .checked_div(SqrtPrice::one())
            .ok_or(ContractError::Div)?,
    };
""", """    let value = if rounding_up {
        let product: U256 = delta.big_mul_to_value_up(liquidity);
        product
            .checked_add(SqrtPrice::almost_one())
            .ok_or(ContractError::Add)?
    } else {
        delta.big_mul_to_value(liquidity)
    };
    let delta_y: U256 = value
        .checked_div(SqrtPrice::one())
        .ok_or(ContractError::Div)?;
""")]),
 ("r10-xup-if", "ref", [(C, """    let denominator = match add_x {
        true => price_delta.checked_add(starting_sqrt_price.big_mul_to_value(x)),
        false => price_delta.checked_sub(starting_sqrt_price.big_mul_to_value(x)),
    }
    .ok_or(ContractError::BigLiquidityOverflow)?; // never should be triggered
""", """    let product: U256 = starting_sqrt_price.big_mul_to_value(x);
    let denominator = if add_x {
        price_delta.checked_add(product)
    } else {
        price_delta.checked_sub(product)
    };
    let denominator = match denominator {
        Some(d) => d,
        None => return Err(ContractError::BigLiquidityOverflow),
    };
""")]),
 ("r10-ydown-err", "ref", [(C, """    let numerator: U256 = SqrtPrice::checked_from_decimal_to_value(y).unwrap();
""", """    let numerator: U256 =
        SqrtPrice::checked_from_decimal_to_value(y).map_err(|_| ContractError::Mul)?;
""")]),
 ("r10-amount-bounds", "ref", [(C, """    let mut amount_x = TokenAmount(0);
    let mut amount_y = TokenAmount(0);
    let mut update_liquidity = false;

    if current_tick_index < lower_tick {
        amount_x = get_delta_x(
            SqrtPrice::from_tick(lower_tick)?,
            SqrtPrice::from_tick(upper_tick)?,
            liquidity_delta,
            liquidity_sign,
        )?;
    } else if current_tick_index < upper_tick {
        amount_x = get_delta_x(
            current_sqrt_price,
            SqrtPrice::from_tick(upper_tick)?,
            liquidity_delta,
            liquidity_sign,
        )?;
        amount_y = get_delta_y(
            SqrtPrice::from_tick(lower_tick)?,
            current_sqrt_price,
            liquidity_delta,
            liquidity_sign,
        )?;
        update_liquidity = true;
    } else {
        amount_y = get_delta_y(
            SqrtPrice::from_tick(lower_tick)?,
            SqrtPrice::from_tick(upper_tick)?,
            liquidity_delta,
            liquidity_sign,
        )?;
    }

    Ok((amount_x, amount_y, update_liquidity))""", """    let lower_price = SqrtPrice::from_tick(lower_tick)?;
    let upper_price = SqrtPrice::from_tick(upper_tick)?;

    if current_tick_index >= upper_tick {
        let amount_y = get_delta_y(lower_price, upper_price, liquidity_delta, liquidity_sign)?;
        return Ok((TokenAmount(0), amount_y, false));
    }
    if current_tick_index < lower_tick {
        let amount_x = get_delta_x(lower_price, upper_price, liquidity_delta, liquidity_sign)?;
        return Ok((amount_x, TokenAmount(0), false));
    }
    let amount_y = get_delta_y(lower_price, current_sqrt_price, liquidity_delta, liquidity_sign)?;
    let amount_x = get_delta_x(current_sqrt_price, upper_price, liquidity_delta, liquidity_sign)?;
    Ok((amount_x, amount_y, true))""")]),
 ("r10-enough-if", "ref", [(C, """    let next_sqrt_price = (if by_amount_in {
        let amount_after_fee = amount.big_mul(Percentage::from_integer(1) - fee);
        get_next_sqrt_price_from_input(starting_sqrt_price, liquidity, amount_after_fee, x_to_y)
    } else {
        get_next_sqrt_price_from_output(starting_sqrt_price, liquidity, amount, x_to_y)
    })?;

    Ok(starting_sqrt_price.ne(&next_sqrt_price))""", """    let next_sqrt_price = match by_amount_in {
        false => get_next_sqrt_price_from_output(starting_sqrt_price, liquidity, amount, x_to_y)?,
        true => get_next_sqrt_price_from_input(
            starting_sqrt_price,
            liquidity,
            amount.big_mul(Percentage::from_integer(1) - fee),
            x_to_y,
        )?,
    };
    let unchanged = next_sqrt_price == starting_sqrt_price;
    Ok(!unchanged)""")]),
 # --- fee_growth.rs
 ("r10-growth-helper", "ref", [(F, """    let current_above_lower = tick_current >= tick_lower;
    let current_below_upper = tick_current < tick_upper;
""", """    let current_above_lower = !(tick_current < tick_lower);
    let current_below_upper = tick_upper > tick_current;
"""), (F, """    let fee_growth_inside_x = fee_growth_global_x
        .unchecked_sub(fee_growth_below_x)
        .unchecked_sub(fee_growth_above_x);""", """    let outside_x = fee_growth_below_x.unchecked_add(fee_growth_above_x);
    let fee_growth_inside_x = fee_growth_global_x.unchecked_sub(outside_x);""")]),
 ("r10-growth-closure", "ref", [(F, """    let fee_growth_below_x = if current_above_lower {
        tick_lower_fee_growth_outside_x
    } else {
        fee_growth_global_x.unchecked_sub(tick_lower_fee_growth_outside_x)
    };
    let fee_growth_below_y = if current_above_lower {
        tick_lower_fee_growth_outside_y
    } else {
        fee_growth_global_y.unchecked_sub(tick_lower_fee_growth_outside_y)
    };
""", """    let side = |same: bool, global: FeeGrowth, outside: FeeGrowth| {
        if same {
            outside
        } else {
            global.unchecked_sub(outside)
        }
    };
    let fee_growth_below_x = side(current_above_lower, fee_growth_global_x, tick_lower_fee_growth_outside_x);
    let fee_growth_below_y = side(current_above_lower, fee_growth_global_y, tick_lower_fee_growth_outside_y);
""")]),
 ("r10-tofee", "ref", [(F, """                .checked_div(U256::from(10).pow(U256::from(Self::scale() + Liquidity::scale())))
                .ok_or(ContractError::Mul)?""", """                .checked_div(Self::one::<U256>() * Liquidity::one::<U256>())
                .ok_or(ContractError::Mul)?""")]),
 # --- sqrt_price.rs / log.rs
 ("r10-price-table", "ref", [(Q, """    if tick & 0x1 != 0 {
        sqrt_price *= FixedPoint::new(1000049998750);
    }
    if tick & 0x2 != 0 {
        sqrt_price *= FixedPoint::new(1000100000000);
    }
    if tick & 0x4 != 0 {
        sqrt_price *= FixedPoint::new(1000200010000);
    }
""", """    for (bit, factor) in [(0x1, 1000049998750u128), (0x2, 1000100000000), (0x4, 1000200010000)] {
        if tick & bit != 0 {
            sqrt_price = sqrt_price * FixedPoint::new(factor);
        }
    }
""")]),
 ("r10-rel-if", "ref", [(Q, """    if tick_index + tick_spacing as i32 > MAX_TICK {
        let max_tick = get_max_tick(tick_spacing);
        let max_sqrt_price = SqrtPrice::from_tick(max_tick)?;
        if sqrt_price != max_sqrt_price {
            return Ok(false);
        }
    } else {
        let lower_bound = SqrtPrice::from_tick(tick_index)?;
        let upper_bound = SqrtPrice::from_tick(tick_index + tick_spacing as i32)?;
        if sqrt_price >= upper_bound || sqrt_price < lower_bound {
            return Ok(false);
        }
    }
    Ok(true)""", """    let next_tick = tick_index + tick_spacing as i32;
    if next_tick > MAX_TICK {
        return Ok(sqrt_price == SqrtPrice::from_tick(get_max_tick(tick_spacing))?);
    }
    let lower_bound = SqrtPrice::from_tick(tick_index)?;
    let upper_bound = SqrtPrice::from_tick(next_tick)?;
    Ok(lower_bound <= sqrt_price && sqrt_price < upper_bound)""")]),
 ("r10-maxtick", "ref", [(Q, "    MAX_TICK / tick_spacing * tick_spacing", "    MAX_TICK - MAX_TICK % tick_spacing")]),
 ("r10-align", "ref", [(L, """    match accurate_tick > 0 {
        true => accurate_tick - (accurate_tick % tick_spacing),
        false => accurate_tick - (accurate_tick.rem_euclid(tick_spacing)),
    }""", "    accurate_tick - accurate_tick.rem_euclid(tick_spacing)")]),
 ("r10-align2", "ref", [(L, """    match accurate_tick > 0 {
        true => accurate_tick - (accurate_tick % tick_spacing),
        false => accurate_tick - (accurate_tick.rem_euclid(tick_spacing)),
    }""", "    accurate_tick.div_euclid(tick_spacing) * tick_spacing")]),
 ("r10-log-if", "ref", [(L, """    let abs_floor_tick: i32 = match log2_sign {
        true => log2_sqrt_price / LOG2_SQRT_10001,
        false => (log2_sqrt_price + LOG2_NEGATIVE_MAX_LOSE) / LOG2_SQRT_10001,
    } as i32;

    let nearer_tick = match log2_sign {
        true => abs_floor_tick,
        false => -abs_floor_tick,
    };
    let farther_tick = match log2_sign {
        true => abs_floor_tick + 1,
        false => -abs_floor_tick - 1,
    };
""", """    let (nearer_tick, farther_tick) = if log2_sign {
        let tick = (log2_sqrt_price / LOG2_SQRT_10001) as i32;
        (tick, tick + 1)
    } else {
        let tick = -(((log2_sqrt_price + LOG2_NEGATIVE_MAX_LOSE) / LOG2_SQRT_10001) as i32);
        (tick, tick - 1)
    };
""")]),
 ("r10-log-final", "ref", [(L, """    Ok(match tick_spacing > 1 {
        true => align_tick_to_spacing(accurate_tick, tick_spacing as i32),
        false => accurate_tick,
    })""", "    Ok(align_tick_to_spacing(accurate_tick, tick_spacing as i32))")]),
 # --- bugs
 ("b10-key-noprefix", "bug", [("storage/pool_key.rs", """        to_length_prefixed_nested(&[
            self.token_x.as_bytes(),
            self.token_y.as_bytes(),
            &self.fee_tier.key(),
        ])""", """        [
            self.token_x.as_bytes(),
            self.token_y.as_bytes(),
            &self.fee_tier.key(),
        ]
        .concat()""")]),
 ("b10-tickkey-i16", "bug", [(S, "    db_key.extend_from_slice(&index.to_be_bytes());\n    db_key\n}\n\npub fn add_tick", "    db_key.extend_from_slice(&(index as i16).to_be_bytes());\n    db_key\n}\n\npub fn add_tick")]),
 ("b10-poskey-u16", "bug", [(S, "    let mut db_key = account_id.as_bytes().to_vec();\n    db_key.extend_from_slice(&index.to_be_bytes());", "    let mut db_key = account_id.as_bytes().to_vec();\n    db_key.extend_from_slice(&(index & 0xffff).to_be_bytes());")]),
 ("b10-bitmap-le", "bug", [(S, "chunk.to_be_bytes().to_vec()", "(chunk as u8).to_be_bytes().to_vec()")]),
 ("b10-feetier-key", "bug", [("storage/fee_tier.rs", "self.fee.0.to_be_bytes()", "(self.fee.0 / 1_000_000 * 1_000_000).to_be_bytes()")]),
 ("b10-operators-swapped", "bug", [("entrypoints/execute.rs", "OPERATORS.remove(\n        deps.storage,\n        (info.sender.as_bytes(), operator.as_bytes()),", "OPERATORS.remove(\n        deps.storage,\n        (operator.as_bytes(), info.sender.as_bytes()),")]),
 ("b10-inst-admin", "bug", [("contract.rs", "        admin: info.sender,\n        protocol_fee: msg.protocol_fee,", "        admin: _env.contract.address,\n        protocol_fee: msg.protocol_fee,")]),
 ("b10-migrate", "bug", [("contract.rs", "pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n", "pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n    let mut config = CONFIG.load(_deps.storage)?;\n    config.fee_tiers.truncate(64);\n    CONFIG.save(_deps.storage, &config)?;\n")]),
]
