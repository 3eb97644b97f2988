C = "wasm/clamm.rs"
S = "wasm/swap.rs"
P = "wasm/storage/pool.rs"
T = "wasm/storage/tick.rs"
M = "wasm/collections/tickmap.rs"
U = "wasm/custom.rs"
MA = "wasm/math.rs"
FG = "wasm/types/fee_growth.rs"
EDITS = [
 ("b6-step-up", "bug", [(C, "amount_in.big_mul_up(fee)", "amount_in.big_mul(fee)")]),
 ("b6-step-ge", "bug", [(C, "if amount_after_fee >= amount_in {", "if amount_after_fee > amount_in {")]),
 ("b6-step-cap", "bug", [(C, "    if !by_amount_in && amount_out > amount {\n        amount_out = amount;\n    }\n", "")]),
 ("b6-fee-swap", "bug", [(U, ".unchecked_sub(position_fee_growth_inside_y)", ".unchecked_sub(position_fee_growth_inside_x)")]),
 ("b6-tokenx", "bug", [(U, "token_candidate < token_to_compare", "token_candidate <= token_to_compare")]),
 ("b6-liq-lower", "bug", [(MA, "    if upper_sqrt_price <= current_sqrt_price {", "    if upper_sqrt_price < current_sqrt_price {")]),
 ("b6-liq-round", "bug", [(MA, "                + U256::from(SqrtPrice::from_integer(1).get() - 1))", "                + U256::from(SqrtPrice::from_integer(1).get()))")]),
 ("b6-tab", "bug", [("wasm/types/sqrt_price.rs", "1000400060004", "1000400060014")]),
 ("b6-limit", "bug", [("wasm/consts.rs", "(32 + 128 + 8)", "(32 + 128 + 16)")]),
 ("b6-cross", "bug", [(S, "crossed_ticks.len() > MAX_TICK_CROSS as usize", "crossed_ticks.len() >= MAX_TICK_CROSS as usize")]),
 ("b6-sim-lim", "bug", [(S, "if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {", "if pool.sqrt_price == sqrt_price_limit {")]),
 ("b6-sim-fee", "bug", [(S, "        total_amount_in += result.amount_in + result.fee_amount;", "        total_amount_in += result.amount_in;")]),
 ("b6-sim-add", "bug", [(S, "        total_amount_in += amount_to_add;\n", "")]),
 ("b6-sim-reach", "bug", [(S, "false => pool.current_tick_index >= tick_limit,", "false => pool.current_tick_index > tick_limit,")]),
 ("b6-upd-x2y", "bug", [(P, "if !x_to_y || is_enough_amount_to_cross {", "if is_enough_amount_to_cross {")]),
 ("b6-upd-idx", "bug", [(P, "self.current_tick_index = if x_to_y && is_enough_amount_to_cross {", "self.current_tick_index = if x_to_y {")]),
 ("b6-lt-sign", "bug", [(T, "if (pool.current_tick_index >= self.index) ^ self.sign {", "if (pool.current_tick_index > self.index) ^ self.sign {", 1)]),
 ("b6-next", "bug", [(M, "tick_to_position(tick.checked_add(tick_spacing as i32)?, tick_spacing)", "tick_to_position(tick, tick_spacing)")]),
 ("b6-prev-lim", "bug", [(M, "return if chunk > limiting_chunk || (chunk == limiting_chunk && bit >= limiting_bit)", "return if chunk >= limiting_chunk")]),
 ("b6-closer", "bug", [(M, "|| (!x_to_y && sqrt_price < sqrt_price_limit)", "|| (!x_to_y && sqrt_price <= sqrt_price_limit)", 1)]),
 ("b6-flip", "bug", [(M, "value ^ (1 << position)", "value | (1 << position)")]),
 ("b6-inside", "bug", [(FG, "tick_lower", "tick_lower")]) if False else ("b6-outdated", "bug", [(S, "                            state_outdated = true;\n                            break;\n", "                            global_insufficient_liquidity = true;\n                            break;\n")]),
 ("r6-step-match", "ref", [(C, "    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {", "    let partial = next_sqrt_price != target_sqrt_price;\n    let fee_amount = if partial && by_amount_in {")]),
 ("r6-sim-tuple", "ref", [(S, "        total_fee_amount += result.fee_amount;\n\n        pool.sqrt_price = result.next_sqrt_price;\n\n        total_amount_in += result.amount_in + result.fee_amount;\n        total_amount_out += result.amount_out;\n", "        let spent = result.amount_in + result.fee_amount;\n        total_amount_in += spent;\n        total_amount_out += result.amount_out;\n        total_fee_amount += result.fee_amount;\n        pool.sqrt_price = result.next_sqrt_price;\n")]),
 ("r6-sim-letelse", "ref", [(S, "        let (swap_limit, limiting_tick) = if let Ok(closer_limit) = closer_limit {\n            closer_limit\n        } else {\n            global_insufficient_liquidity = true;\n            break;\n        };", "        let (swap_limit, limiting_tick) = match closer_limit {\n            Ok(found) => found,\n            Err(_) => {\n                global_insufficient_liquidity = true;\n                break;\n            }\n        };")]),
 ("r6-sim-reach", "ref", [(S, "        let reached_tick_limit = match x_to_y {\n            true => pool.current_tick_index <= tick_limit,\n            false => pool.current_tick_index >= tick_limit,\n        };", "        let reached_tick_limit = if x_to_y {\n            !(pool.current_tick_index > tick_limit)\n        } else {\n            tick_limit <= pool.current_tick_index\n        };")]),
 ("r6-sim-loop", "ref", [(S, "    while !remaining_amount.is_zero() {\n", "    loop {\n        if remaining_amount.is_zero() {\n            break;\n        }\n")]),
 ("r6-sim-find", "ref", [(S, "let tick = ticks.iter().find(|t| t.index as i32 == tick_index);", "let mut tick = None;\n                    for t in ticks.iter() {\n                        if t.index == tick_index {\n                            tick = Some(t);\n                            break;\n                        }\n                    }")]),
 ("r6-sim-match", "ref", [(S, "            if let Some((tick_index, is_initialized)) = limiting_tick {\n                if is_initialized {\n                    let tick = ticks.iter().find(|t| t.index as i32 == tick_index);\n\n                    match tick {\n                        Some(tick) => UpdatePoolTick::TickInitialized(*tick),\n                        None => {\n                            state_outdated = true;\n                            break;\n                        }\n                    }\n                } else {\n                    UpdatePoolTick::TickUninitialized(tick_index)\n                }\n            } else {\n                UpdatePoolTick::NoTick\n            }\n", "            match limiting_tick {\n                None => UpdatePoolTick::NoTick,\n                Some((tick_index, false)) => UpdatePoolTick::TickUninitialized(tick_index),\n                Some((tick_index, true)) => match ticks.iter().find(|t| t.index == tick_index).copied() {\n                    Some(t) => UpdatePoolTick::TickInitialized(t),\n                    None => {\n                        state_outdated = true;\n                        break;\n                    }\n                },\n            }\n")]),
 ("r6-lt-helper", "ref", [(T, "impl LiquidityTick {\n", "fn apply(pool: &mut Pool, add: bool, by: Liquidity) -> TrackableResult<()> {\n    pool.liquidity = if add {\n        pool.liquidity.checked_add(by).map_err(|_| err!(\"overflow\"))?\n    } else {\n        pool.liquidity.checked_sub(by).map_err(|_| err!(\"underflow\"))?\n    };\n    Ok(())\n}\n\nimpl LiquidityTick {\n"), (T, "        if (pool.current_tick_index >= self.index) ^ self.sign {\n            pool.liquidity = pool\n                .liquidity\n                .checked_add(self.liquidity_change)\n                .map_err(|_| err!(\"pool.liquidity + tick.liquidity_change overflow\"))?;\n        } else {\n            pool.liquidity = pool\n                .liquidity\n                .checked_sub(self.liquidity_change)\n                .map_err(|_| err!(\"pool.liquidity - tick.liquidity_change underflow\"))?\n        }\n\n        Ok(())", "        let going_up = pool.current_tick_index < self.index;\n        apply(pool, going_up == self.sign, self.liquidity_change)", 1)]),
 ("r6-upd-match", "ref", [(P, "        if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {", "        let stopped = matches!(tick, UpdatePoolTick::NoTick);\n        if stopped || result.next_sqrt_price != swap_limit {")]),
 ("r6-closer", "ref", [(M, "                if (x_to_y && sqrt_price > sqrt_price_limit)\n                    || (!x_to_y && sqrt_price < sqrt_price_limit)\n                {\n                    Ok((sqrt_price, Some((index, true))))\n                } else {\n                    Ok((sqrt_price_limit, None))\n                }\n", "                let nearer = if x_to_y { sqrt_price > sqrt_price_limit } else { sqrt_price < sqrt_price_limit };\n                if !nearer {\n                    return Ok((sqrt_price_limit, None));\n                }\n                Ok((sqrt_price, Some((index, true))))\n")]),
 ("r6-get", "ref", [(M, "        let returned_chunk = self.bitmap.get(&(chunk as u64)).copied().unwrap_or(0);\n        get_bit_at_position(returned_chunk, bit) == 1", "        match self.bitmap.get(&(chunk as u64)) {\n            Some(word) => get_bit_at_position(*word, bit) != 0,\n            None => false,\n        }")]),
 ("r6-liq", "ref", [(MA, "    if current_sqrt_price < lower_sqrt_price {\n        let nominator =\n            (lower_sqrt_price.big_mul(upper_sqrt_price)).big_div(SqrtPrice::from_integer(1));\n        let denominator = upper_sqrt_price - lower_sqrt_price;\n", "    let below = current_sqrt_price < lower_sqrt_price;\n    if below {\n        let denominator = upper_sqrt_price - lower_sqrt_price;\n        let product = upper_sqrt_price.big_mul(lower_sqrt_price);\n        let nominator = product.big_div(SqrtPrice::from_integer(1));\n")]),
 ("r6-fee", "ref", [(U, "    let tokens_owed_x = ok_or_mark_trace!(fee_growth_inside_x\n        .unchecked_sub(position_fee_growth_inside_x)\n        .to_fee(position_liquidity))?;\n", "    let grown_x = fee_growth_inside_x.unchecked_sub(position_fee_growth_inside_x);\n    let tokens_owed_x = grown_x.to_fee(position_liquidity)?;\n")]),
]
