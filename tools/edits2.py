E = "entrypoints/"
EDITS = [
 ("b-chunk-slip", "bug", [("storage/tickmap.rs", "let bit: u8 = (bitmap_index % CHUNK_SIZE) as u8;", "let bit: u8 = if tick_spacing > 64 { ((bitmap_index % CHUNK_SIZE) ^ 1) as u8 } else { (bitmap_index % CHUNK_SIZE) as u8 };")]),
 ("b-flip-check", "bug", [("state.rs", "if check_bit != value {", "if check_bit != value && !value {")]),
 ("b-flip-nocheck", "bug", [("state.rs", "if check_bit != value {", "if check_bit != value && tick_spacing == 1 {")]),
 ("b-flip-removeonly", "bug", [(E+"common.rs", "state::flip_bitmap(store, true, index, pool_key.fee_tier.tick_spacing, pool_key)?;", "if index % 64 != 63 { state::flip_bitmap(store, true, index, pool_key.fee_tier.tick_spacing, pool_key)?; }")]),
 ("b-check-tick-bound", "bug", [("math/clamm.rs", "if tick_index > max_tick || tick_index < min_tick {", "if tick_index >= max_tick + tick_spacing as i32 || tick_index < min_tick - 1 && tick_spacing > 1 {")]),
 ("b-pos-slip", "bug", [("storage/position.rs", "if pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper {", "if pool.sqrt_price < slippage_limit_lower || pool.sqrt_price >= slippage_limit_upper {")]),
 ("b-pos-slip2", "bug", [("storage/position.rs", "if pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper {", "if pool.sqrt_price < slippage_limit_lower {")]),
 ("b-pos-order", "bug", [(E+"execute.rs", "if lower_tick == upper_tick {", "if lower_tick == upper_tick && lower_tick != 0 {")]),
 ("b-tick-max", "bug", [("storage/tick.rs", "if sign && new_liquidity >= max_liquidity_per_tick {", "if sign && new_liquidity > max_liquidity_per_tick {")]),
 ("b-pool-exists", "bug", [(E+"execute.rs", "if POOLS.has(deps.storage, &db_key) {", "if POOLS.may_load(deps.storage, &db_key)?.map_or(false, |p| !p.liquidity.is_zero()) {")]),
 ("b-pool-tier", "bug", [(E+"execute.rs", "if !config.fee_tiers.contains(&fee_tier) {", "if !config.fee_tiers.iter().any(|t| t.fee == fee_tier.fee) {")]),
 ("b-pool-samemap", "bug", [("storage/pool_key.rs", "if token_0 < token_1 {", "if token_0.len() < token_1.len() || token_0 < token_1 {")]),
 ("b-pool-rel", "bug", [("math/types/sqrt_price.rs", "if sqrt_price >= upper_bound ||", "if sqrt_price > upper_bound ||")]),
 ("b-pool-fr", "bug", [(E+"execute.rs", "        config.admin,\n    )\n", "        deps.api.addr_validate(pool_key.token_x.as_str()).unwrap_or(config.admin),\n    )\n")]),
 ("b-tier-sp", "bug", [(E+"execute.rs", "fee_tier.tick_spacing > 100", "fee_tier.tick_spacing > 1000")]),
 ("b-tier-fee", "bug", [(E+"execute.rs", "if fee_tier.fee >= Percentage::new(1000000000000) {", "if fee_tier.fee > Percentage::new(1000000000000) {")]),
 ("b-tier-dup", "bug", [(E+"execute.rs", "if config.fee_tiers.contains(&fee_tier) {\n        return Err(ContractError::FeeTierAlreadyExist);", "if config.fee_tiers.last() == Some(&fee_tier) {\n        return Err(ContractError::FeeTierAlreadyExist);")]),
 ("b-pos-pay", "bug", [(E+"execute.rs", "asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;\n\n    let event_attributes = vec![\n        attr(\"action\", \"create_position\"),", "if asset_0.amount.is_zero() || pool_key.token_x != info.sender.as_str() { asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?; }\n\n    let event_attributes = vec![\n        attr(\"action\", \"create_position\"),")]),
 # refactorings
 ("r-bit-or", "ref", [("state.rs", "BITMAP.save(store, &db_key, &flip_bit_at_position(returned_chunk, bit))?;", "let word = if value { returned_chunk | (1u64 << bit) } else { returned_chunk & !(1u64 << bit) };\n    BITMAP.save(store, &db_key, &word)?;")]),
 ("r-bit-test", "ref", [("state.rs", "let check_bit = get_bit_at_position(returned_chunk, bit) == 0;\n    if check_bit != value {", "let is_set = returned_chunk & (1u64 << bit) != 0;\n    if is_set == value {")]),
 ("r-bit-mayload", "ref", [("state.rs", "let returned_chunk = BITMAP.load(store, &db_key).unwrap_or(0);\n    let check_bit", "let returned_chunk = match BITMAP.may_load(store, &db_key)? { Some(c) => c, None => 0 };\n    let check_bit")]),
 ("r-ttp-rem", "ref", [("storage/tickmap.rs", "let bit: u8 = (bitmap_index % CHUNK_SIZE) as u8;", "let bit: u8 = (bitmap_index - (chunk as i32) * CHUNK_SIZE) as u8;")]),
 ("r-ttp-shift", "ref", [("storage/tickmap.rs", "let chunk: u16 = (bitmap_index / CHUNK_SIZE) as u16;\n    let bit: u8 = (bitmap_index % CHUNK_SIZE) as u8;", "let chunk: u16 = (bitmap_index >> 6) as u16;\n    let bit: u8 = (bitmap_index & 63) as u8;")]),
 ("r-createtick-order", "ref", [(E+"common.rs", "    state::add_tick(store, pool_key, index, &tick)?;\n    state::flip_bitmap(store, true, index, pool_key.fee_tier.tick_spacing, pool_key)?;", "    state::flip_bitmap(store, true, index, pool_key.fee_tier.tick_spacing, pool_key)?;\n    state::add_tick(store, pool_key, index, &tick)?;")]),
 ("r-gettick-helper", "ref", [(E+"execute.rs", """    let mut lower_tick = match state::get_tick(deps.storage, &pool_key, lower_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, lower_tick)?,
    };

    let mut upper_tick = match state::get_tick(deps.storage, &pool_key, upper_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, upper_tick)?,
    };
""", """    let mut lower_tick = get_or_create(deps.storage, current_timestamp, &pool_key, lower_tick)?;
    let mut upper_tick = get_or_create(deps.storage, current_timestamp, &pool_key, upper_tick)?;
"""), (E+"execute.rs", "#[allow(clippy::too_many_arguments)]\npub fn create_position(", """fn get_or_create(store: &mut dyn cosmwasm_std::Storage, now: u64, key: &PoolKey, ix: i32) -> Result<crate::Tick, ContractError> {
    if let Ok(t) = state::get_tick(store, key, ix) {
        return Ok(t);
    }
    create_tick(store, now, key, ix)
}

#[allow(clippy::too_many_arguments)]
pub fn create_position(""")]),
 ("r-pay-loop", "ref", [(E+"execute.rs", """    asset_0.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
    asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;

    let event_attributes = vec![
        attr("action", "create_position"),""", """    for asset in [asset_0, asset_1].iter() {
        asset.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
    }

    let event_attributes = vec![
        attr("action", "create_position"),""")]),
 ("r-pay-swap", "ref", [(E+"execute.rs", """    asset_0.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
    asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;

    let event_attributes = vec![
        attr("action", "create_position"),""", """    let me = env.contract.address.to_string();
    asset_1.transfer_from(&mut msgs, &info, me.clone())?;
    asset_0.transfer_from(&mut msgs, &info, me)?;

    let event_attributes = vec![
        attr("action", "create_position"),""")]),
 ("r-pool-order", "ref", [(E+"execute.rs", """    check_tick(init_tick, fee_tier.tick_spacing)?;

    let pool_key = PoolKey::new(token_0, token_1, fee_tier)?;
""", """    let pool_key = PoolKey::new(token_0, token_1, fee_tier)?;
    check_tick(init_tick, pool_key.fee_tier.tick_spacing)?;
"""), (E+"execute.rs", "    let config = CONFIG.load(deps.storage)?;\n\n    let pool = Pool::create(", "    let pool = Pool::create(")]),
 ("r-poolkey-match", "ref", [("storage/pool_key.rs", "if token_0 < token_1 {", "if token_1 > token_0 {")]),
 ("r-tier-any", "ref", [(E+"execute.rs", "if config.fee_tiers.contains(&fee_tier) {\n        return Err(ContractError::FeeTierAlreadyExist);", "if config.fee_tiers.iter().any(|t| *t == fee_tier) {\n        return Err(ContractError::FeeTierAlreadyExist);")]),
 ("r-tier-range", "ref", [(E+"execute.rs", "if fee_tier.tick_spacing == 0 || fee_tier.tick_spacing > 100 {", "if !(1..=100).contains(&fee_tier.tick_spacing) {")]),
 ("r-tier-retain", "ref", [(E+"execute.rs", "if let Some(pos) = config.fee_tiers.iter().position(|x| *x == fee_tier) {\n        config.fee_tiers.remove(pos);\n    } else {\n        return Err(ContractError::FeeTierNotFound);\n    }", "if !config.fee_tiers.contains(&fee_tier) {\n        return Err(ContractError::FeeTierNotFound);\n    }\n    config.fee_tiers.retain(|t| t != &fee_tier);")]),
 ("r-tick-create-if", "ref", [("storage/tick.rs", """            fee_growth_outside_x: match below_current_tick {
                true => pool.fee_growth_global_x,
                false => FeeGrowth::new(0),
            },""", """            fee_growth_outside_x: if below_current_tick { pool.fee_growth_global_x } else { FeeGrowth::default() },""")]),
 ("r-check-tick", "ref", [("math/clamm.rs", "if tick_index > max_tick || tick_index < min_tick {", "if !(min_tick..=max_tick).contains(&tick_index) {")]),
 ("r-pos-slip", "ref", [("storage/position.rs", "if pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper {", "if !(slippage_limit_lower..=slippage_limit_upper).contains(&pool.sqrt_price) {")]),
]
S = "state.rs"
EDITS += [
 ("b-next-limit", "bug", [(S, "return if chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit) {", "return if chunk <= limiting_chunk {")]),
 ("b-prev-start", "bug", [(S, "tick_to_position(tick, tick_spacing);\n    let (limiting_chunk, limiting_bit) = tick_to_position(limit, tick_spacing);\n\n    while chunk >", "tick_to_position(if tick > 0 { tick - tick_spacing as i32 } else { tick }, tick_spacing);\n    let (limiting_chunk, limiting_bit) = tick_to_position(limit, tick_spacing);\n\n    while chunk >")]),
 ("b-prev-mask", "bug", [(S, "if value.checked_rem(mask.checked_shl(1)?)? > 0 {", "if value.checked_rem(mask)? > 0 || value & mask != 0 && bit != 63 {")]),
 ("b-prev-bit", "bug", [(S, "bit = CHUNK_SIZE as u8 - 1;", "bit = CHUNK_SIZE as u8 - 2;")]),
 ("b-next-while", "bug", [(S, "while chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit) {", "while chunk < limiting_chunk || (chunk == limiting_chunk && bit < limiting_bit) {")]),
 ("b-search-range", "bug", [("storage/tickmap.rs", "range_limit.max(sqrt_price_limit)", "range_limit.max(sqrt_price_limit + (tick_spacing > 50) as i32)")]),
 ("b-closer-dir", "bug", [(S, "let index = get_search_limit(current_tick, tick_spacing, !x_to_y);", "let index = get_search_limit(current_tick, tick_spacing, !x_to_y || tick_spacing > 99);")]),
 ("b-closer-eq", "bug", [(S, "(!x_to_y && sqrt_price < sqrt_price_limit)", "(!x_to_y && sqrt_price <= sqrt_price_limit)")]),
 ("b-closer-init", "bug", [(S, "(index, false)", "(index, current_tick == 0)")]),
 ("b-next-scan32", "bug", [(S, "while shifted.checked_rem(2)? == 0 {", "while shifted.checked_rem(2)? == 0 && bit < 62 {")]),
 ("r-next-tz", "ref", [(S, """            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""", """            bit += shifted.trailing_zeros() as u8;
"""), (S, "let mut shifted = BITMAP", "let shifted = BITMAP")]),
 ("r-next-helper", "ref", [(S, """            return if chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit) {""", """            return if (chunk, bit) <= (limiting_chunk, limiting_bit) {""")]),
 ("r-next-loop", "ref", [(S, "    while chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit) {\n", "    loop {\n        if !(chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit)) {\n            return None;\n        }\n"), (S, "        bit = 0;\n    }\n\n    None\n", "        bit = 0;\n    }\n")]),
 ("r-next-add", "ref", [(S, """        if let Some(value) = chunk.checked_add(1) {
            chunk = value;
        } else {
            return None;
        }
""", "        chunk = chunk.checked_add(1)?;\n")]),
 ("r-prev-bitscan", "ref", [(S, """        let mut mask = 1u128 << bit; // left = MSB direction (increase value)
""", """        let mask = 1u128 << bit; // left = MSB direction (increase value)
"""), (S, """            while value & mask == 0 {
                mask >>= 1;
                bit = bit.checked_sub(1)?;
            }
""", """            while (value >> bit) & 1 == 0 {
                bit -= 1;
            }
""")]),
 ("r-prev-mask", "ref", [(S, "if value.checked_rem(mask.checked_shl(1)?)? > 0 {", "if value & ((mask << 1) - 1) != 0 {")]),
 ("r-limit-if", "ref", [("storage/tickmap.rs", "range_limit.min(sqrt_price_limit)", "if range_limit < sqrt_price_limit { range_limit } else { sqrt_price_limit }")]),
 ("r-closer-match", "ref", [(S, """    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
        Ok((sqrt_price, Some((index, is_initialized))))
    } else {
        Ok((sqrt_price_limit, None))
    }""", """    let tick_first = if x_to_y { sqrt_price > sqrt_price_limit } else { sqrt_price < sqrt_price_limit };
    if !tick_first {
        return Ok((sqrt_price_limit, None));
    }
    Ok((sqrt_price, Some((index, is_initialized))))""")]),
]
