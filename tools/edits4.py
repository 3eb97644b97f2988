Q = "entrypoints/query.rs"
S = "state.rs"
EDITS = [
 ("b-q-pos", "bug", [(S, "let from_idx = offset.unwrap_or(0);", "let from_idx = offset.map(|x| x + 1).unwrap_or(0);")]),
 ("b-q-poslimit", "bug", [(S, "saturating_add(limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT)));\n    (from_idx..to_idx)\n        .map(|index| get_position(", "saturating_add(limit.unwrap_or(MAX_LIMIT)));\n    (from_idx..to_idx)\n        .map(|index| get_position(")]),
 ("b-q-tokens", "bug", [(S, "    (from_idx..to_idx)\n        .map(|index| position_key", "    (from_idx..to_idx.max(1))\n        .map(|index| position_key")]),
 ("b-q-alltok", "bug", [(Q, "start_after.map(|x| x.to_vec()).map(Bound::ExclusiveRaw)", "start_after.map(|x| x.to_vec()).map(Bound::InclusiveRaw)")]),
 ("b-q-ops-exp", "bug", [(Q, ".take(limit)\n        .map(|item| {\n            let (spender_raw", ".map(|item| {\n            let (spender_raw")]),
 ("b-q-ops-order", "bug", [(Q, "range_raw(deps.storage, start, None, Order::Ascending)\n        .filter(", "range_raw(deps.storage, start, None, Order::Descending)\n        .filter(")]),
 ("b-q-ops-filter", "bug", [(Q, "        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))\n        .take(limit)\n", "        .take(limit)\n        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))\n")]),
 ("b-q-pair", "bug", [(Q, "let mut pool_key = PoolKey::new(token_0, token_1, FeeTier::default())?;", "let mut pool_key = PoolKey { token_x: token_0, token_y: token_1, fee_tier: FeeTier::default() };")]),
 ("b-q-pools", "bug", [(S, ".map(|pool_key| pool_key.key())\n        .map(Bound::ExclusiveRaw)", ".map(|pool_key| pool_key.key())\n        .map(Bound::InclusiveRaw)")]),
 ("b-q-fromb", "bug", [("storage/pool_key.rs", "token_x: String::from_slice(namespaces[0])?,\n            token_y: String::from_slice(namespaces[1])?,", "token_x: String::from_slice(namespaces[1])?,\n            token_y: String::from_slice(namespaces[0])?,")]),
 ("b-q-lt", "bug", [(Q, "if tick_indexes.len() > LIQUIDITY_TICK_LIMIT {", "if tick_indexes.len() >= LIQUIDITY_TICK_LIMIT {")]),
 ("b-q-map", "bug", [("entrypoints/common.rs", "if tickmap_slice.len() == MAX_TICKMAP_QUERY_SIZE {", "if tickmap_slice.len() > MAX_TICKMAP_QUERY_SIZE {")]),
 ("b-q-map2", "bug", [(Q, "let max_chunk_index = get_max_chunk(tick_spacing).min(end_chunk);", "let max_chunk_index = get_max_chunk(tick_spacing).max(end_chunk);")]),
 ("b-q-map3", "bug", [(Q, "(min_chunk_index..=max_chunk_index).rev(),", "(min_chunk_index..max_chunk_index).rev(),")]),
 ("b-q-amt", "bug", [(Q, "amount += active_bits_in_range(max_chunk, 0, max_bit);", "amount += active_bits_in_range(max_chunk, 0, max_bit.max(1));")]),
 ("b-q-amt2", "bug", [(Q, "for i in (min_chunk_index + 1)..max_chunk_index {", "for i in min_chunk_index..max_chunk_index {")]),
 ("b-q-pt", "bug", [(Q, "if ticks.len() >= POSITION_TICK_LIMIT {", "if ticks.len() > POSITION_TICK_LIMIT {")]),
 ("b-q-pt2", "bug", [(Q, "if offset > positions_length {", "if offset >= positions_length {")]),
 ("b-q-pt3", "bug", [(Q, "fee_growth_outside_y: tick.fee_growth_outside_y,", "fee_growth_outside_y: tick.fee_growth_outside_x,", 1)]),
 ("b-q-owner", "bug", [("entrypoints/common.rs", "include_expired || !", "include_expired && !")]),
 ("b-q-bit", "bug", [(Q, "        index,\n        key.fee_tier.tick_spacing,\n        &key,", "        index.max(0),\n        key.fee_tier.tick_spacing,\n        &key,")]),
 ("r-q-pos", "ref", [(S, "    (from_idx..to_idx)\n        .map(|index| get_position(store, account_id, index))\n        .collect()\n", "    let mut out = Vec::new();\n    let mut i = from_idx;\n    while i < to_idx {\n        out.push(get_position(store, account_id, i)?);\n        i += 1;\n    }\n    Ok(out)\n")]),
 ("r-q-pos2", "ref", [(S, "    (from_idx..to_idx)\n        .map(|index| get_position(store, account_id, index))\n        .collect()\n", "    let mut out = vec![];\n    for i in from_idx..to_idx {\n        out.push(get_position(store, account_id, i)?);\n    }\n    Ok(out)\n")]),
 ("r-q-tok", "ref", [(S, "    // maximum 100 items\n    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT)));\n    (from_idx..to_idx)\n        .map(|index| position_key(", "    let count = limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT) as usize;\n    (from_idx..get_position_length(store, account_id))\n        .take(count)\n        .map(|index| position_key(")]),
 ("r-q-lim", "ref", [(Q, "    let limit = limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT) as usize;\n    let start = start_after.map(|x| x.to_vec())", "    let limit = match limit { Some(x) if x <= MAX_LIMIT => x, _ => MAX_LIMIT } as usize;\n    let start = start_after.map(|x| x.to_vec())")]),
 ("r-q-ops", "ref", [(Q, "        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))\n", "        .filter(|r| match r {\n            Ok((_, e)) => include_expired || !e.is_expired(&env.block),\n            Err(_) => true,\n        })\n")]),
 ("r-q-pair", "ref", [(Q, "    let mut pools = vec![];\n    for fee_tier in fee_tiers {\n        pool_key.fee_tier = fee_tier;\n        if let Ok(pool) = state::get_pool(deps.storage, &pool_key) {\n            pools.push(PoolWithPoolKey {\n                pool,\n                pool_key: pool_key.clone(),\n            });\n        }\n    }\n    Ok(pools)", "    Ok(fee_tiers\n        .into_iter()\n        .filter_map(|fee_tier| {\n            pool_key.fee_tier = fee_tier;\n            let pool = state::get_pool(deps.storage, &pool_key).ok()?;\n            Some(PoolWithPoolKey { pool, pool_key: pool_key.clone() })\n        })\n        .collect())")]),
 ("r-q-pair2", "ref", [(Q, "    for fee_tier in fee_tiers {\n        pool_key.fee_tier = fee_tier;\n        if let Ok(pool) = state::get_pool(deps.storage, &pool_key) {\n            pools.push(PoolWithPoolKey {\n                pool,\n                pool_key: pool_key.clone(),\n            });\n        }\n    }\n", "    for fee_tier in fee_tiers {\n        pool_key.fee_tier = fee_tier;\n        let pool = match state::get_pool(deps.storage, &pool_key) {\n            Ok(p) => p,\n            Err(_) => continue,\n        };\n        pools.push(PoolWithPoolKey { pool, pool_key: pool_key.clone() });\n    }\n")]),
 ("r-q-lt", "ref", [(Q, "    for index in tick_indexes {\n        let tick = LiquidityTick::from(state::get_tick(deps.storage, &pool_key, index)?);\n\n        liqudity_ticks.push(tick);\n    }\n", "    for index in tick_indexes.iter() {\n        let tick = state::get_tick(deps.storage, &pool_key, *index)?;\n        liqudity_ticks.push(tick.into());\n    }\n")]),
 ("r-q-lt2", "ref", [(Q, "    for index in tick_indexes {\n        let tick = LiquidityTick::from(state::get_tick(deps.storage, &pool_key, index)?);\n\n        liqudity_ticks.push(tick);\n    }\n\n    Ok(liqudity_ticks)", "    liqudity_ticks = tick_indexes\n        .into_iter()\n        .map(|i| state::get_tick(deps.storage, &pool_key, i).map(LiquidityTick::from))\n        .collect::<Result<Vec<_>, _>>()?;\n    Ok(liqudity_ticks)")]),
 ("r-q-map", "ref", [("entrypoints/common.rs", "        if let Ok(chunk) = state::get_bitmap_item(store, chunk_index, pool_key) {\n            tickmap_slice.push((chunk_index, chunk));\n\n            if tickmap_slice.len() == MAX_TICKMAP_QUERY_SIZE {\n                return tickmap_slice;\n            }\n        }\n", "        let Ok(chunk) = state::get_bitmap_item(store, chunk_index, pool_key) else {\n            continue;\n        };\n        tickmap_slice.push((chunk_index, chunk));\n        if tickmap_slice.len() >= MAX_TICKMAP_QUERY_SIZE {\n            break;\n        }\n")]),
 ("r-q-map2", "ref", [("entrypoints/common.rs", "    let mut tickmap_slice: Vec<(u16, u64)> = vec![];\n\n    for chunk_index in range {\n        if let Ok(chunk) = state::get_bitmap_item(store, chunk_index, pool_key) {\n            tickmap_slice.push((chunk_index, chunk));\n\n            if tickmap_slice.len() == MAX_TICKMAP_QUERY_SIZE {\n                return tickmap_slice;\n            }\n        }\n    }\n\n    tickmap_slice\n", "    range\n        .filter_map(|i| state::get_bitmap_item(store, i, pool_key).ok().map(|c| (i, c)))\n        .take(MAX_TICKMAP_QUERY_SIZE)\n        .collect()\n")]),
 ("r-q-amt", "ref", [(Q, "    let mut amount: u32 = 0;\n    amount += active_bits_in_range(min_chunk, min_bit, (CHUNK_SIZE - 1) as u8);\n    amount += active_bits_in_range(max_chunk, 0, max_bit);\n\n    for i in (min_chunk_index + 1)..max_chunk_index {\n        let chunk = state::get_bitmap_item(deps.storage, i, &pool_key).unwrap_or(0);\n\n        amount += chunk.count_ones();\n    }\n\n    Ok(amount)", "    let edges = active_bits_in_range(min_chunk, min_bit, (CHUNK_SIZE - 1) as u8)\n        + active_bits_in_range(max_chunk, 0, max_bit);\n    let inner: u32 = ((min_chunk_index + 1)..max_chunk_index)\n        .map(|i| state::get_bitmap_item(deps.storage, i, &pool_key).unwrap_or(0).count_ones())\n        .sum();\n    Ok(edges + inner)")]),
 ("r-q-pt", "ref", [(Q, "        if let Ok(position) = state::get_position(deps.storage, &owner, i) {\n            if let Ok(tick) =\n                state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)\n            {\n                ticks.push(PositionTick {\n                    index: tick.index,\n                    fee_growth_outside_x: tick.fee_growth_outside_x,\n                    fee_growth_outside_y: tick.fee_growth_outside_y,\n                    seconds_outside: tick.seconds_outside,\n                });\n            }\n\n            if let Ok(tick) =\n                state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)\n            {\n                ticks.push(PositionTick {\n                    index: tick.index,\n                    fee_growth_outside_x: tick.fee_growth_outside_x,\n                    fee_growth_outside_y: tick.fee_growth_outside_y,\n                    seconds_outside: tick.seconds_outside,\n                });\n            }\n        }\n", "        if let Ok(position) = state::get_position(deps.storage, &owner, i) {\n            for index in [position.lower_tick_index, position.upper_tick_index] {\n                if let Ok(tick) = state::get_tick(deps.storage, &position.pool_key, index) {\n                    ticks.push(PositionTick {\n                        index: tick.index,\n                        fee_growth_outside_x: tick.fee_growth_outside_x,\n                        fee_growth_outside_y: tick.fee_growth_outside_y,\n                        seconds_outside: tick.seconds_outside,\n                    });\n                }\n            }\n        }\n")]),
 ("r-q-owner", "ref", [("entrypoints/common.rs", "    pos.approvals\n        .iter()\n        .filter(|apr| include_expired || !apr.expires.is_expired(block))\n        .map(|approval| approval.clone())\n        .collect()\n", "    let mut out = vec![];\n    for apr in pos.approvals.iter() {\n        if !include_expired && apr.expires.is_expired(block) {\n            continue;\n        }\n        out.push(apr.clone());\n    }\n    out\n")]),
 ("r-q-fromb", "ref", [("storage/pool_key.rs", "        while index < raw_key.len() {\n            let item_len = u16::from_be_bytes([raw_key[index], raw_key[index + 1]]) as usize;\n            index += 2;\n            namespaces.push(&raw_key[index..index + item_len]);\n            index += item_len;\n        }\n", "        loop {\n            if index >= raw_key.len() {\n                break;\n            }\n            let len_bytes = [raw_key[index], raw_key[index + 1]];\n            let start = index + 2;\n            let end = start + u16::from_be_bytes(len_bytes) as usize;\n            namespaces.push(&raw_key[start..end]);\n            index = end;\n        }\n")]),
]
