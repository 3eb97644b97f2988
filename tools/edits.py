E = "entrypoints/"
EDITS = [
 # --- bugs
 ("b-swap-rem-fee", "bug", [(E+"common.rs", ".checked_sub(result.amount_in + result.fee_amount)", ".checked_sub(result.amount_in)")]),
 ("b-swap-total-fee", "bug", [(E+"common.rs", "total_amount_in += result.amount_in + result.fee_amount;", "total_amount_in += result.amount_in;")]),
 ("b-swap-leftover", "bug", [(E+"common.rs", "        total_amount_in += amount_to_add;\n", "")]),
 ("b-swap-limit-continue", "bug", [(E+"common.rs", "if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {", "if pool.sqrt_price == sqrt_price_limit && remaining_amount.is_zero() {")]),
 ("b-swap-nogain", "bug", [(E+"common.rs", "if total_amount_out.is_zero() {", "if total_amount_in.is_zero() {")]),
 ("b-swap-limit-eq", "bug", [(E+"common.rs", "if pool.sqrt_price <= sqrt_price_limit ||", "if pool.sqrt_price < sqrt_price_limit ||")]),
 ("b-swap-ticklimit", "bug", [(E+"common.rs", "true => pool.current_tick_index <= tick_limit", "true => pool.current_tick_index < tick_limit")]),
 ("b-swap-pool-notsaved", "bug", [(E+"common.rs", "    POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?;\n", "    if x_to_y || by_amount_in { POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?; }\n")]),
 ("b-swap-tick-skip", "bug", [(E+"common.rs", "for tick in &calculate_swap_result.ticks {", "for tick in calculate_swap_result.ticks.iter().skip(1) {")]),
 ("b-swap-tick-index", "bug", [(E+"common.rs", "state::update_tick(store, pool_key, tick.index, tick)?;\n    }\n\n    POOLS", "state::update_tick(store, pool_key, tick.index, &Tick { seconds_outside: 0, ..*tick })?;\n    }\n\n    POOLS")]),
 ("b-cross-dir", "bug", [("storage/tick.rs", "if (pool.current_tick_index >= self.index) ^ self.sign {", "if (pool.current_tick_index > self.index) ^ self.sign {")]),
 ("b-cross-fgy", "bug", [("storage/tick.rs", "self.fee_growth_outside_y = pool\n            .fee_growth_global_y", "self.fee_growth_outside_y = pool\n            .fee_growth_global_x")]),
 ("b-update-tick-spacing", "bug", [("storage/pool.rs", "self.current_tick_index = if x_to_y && is_enough_amount_to_cross {", "self.current_tick_index = if x_to_y {")]),
 ("b-update-tick-fee", "bug", [("storage/pool.rs", "                    if by_amount_in {\n                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;\n", "                    if by_amount_in {\n")]),
 ("b-addfee-round", "bug", [("storage/pool.rs", "let protocol_fee = amount.big_mul_up(protocol_fee);", "let protocol_fee = amount.big_mul(protocol_fee);")]),
 ("b-addfee-side", "bug", [("storage/pool.rs", "self.fee_protocol_token_y += protocol_fee;", "self.fee_protocol_token_x += protocol_fee;")]),
 ("b-addfee-full", "bug", [("storage/pool.rs", "FeeGrowth::from_fee(self.liquidity, pool_fee)?", "FeeGrowth::from_fee(self.liquidity, amount)?")]),
 ("b-route-limit", "bug", [(E+"common.rs", "SqrtPrice::new(MIN_SQRT_PRICE)\n        } else {\n            SqrtPrice::new(MAX_SQRT_PRICE)\n        };\n\n        next_swap_amount = calculate_swap(", "SqrtPrice::new(MIN_SQRT_PRICE + 1)\n        } else {\n            SqrtPrice::new(MAX_SQRT_PRICE)\n        };\n\n        next_swap_amount = calculate_swap(")]),
 ("b-route-funds", "bug", [(E+"common.rs", "info.funds.retain(|coin| coin.denom.ne(token_in));", "if false { info.funds.retain(|coin| coin.denom.ne(token_in)); }")]),
 ("b-route-min", "bug", [(E+"execute.rs", "if amount_out < min_amount_out {", "if amount_out < min_amount_out && slippage.get() != 0 {")]),
 ("b-minout", "bug", [("math/clamm.rs", "expected_amount_out.big_mul_up(Percentage::from_integer(1u8) - slippage)", "expected_amount_out.big_mul(Percentage::from_integer(1u8) - slippage)")]),
 ("b-asset-order", "bug", [(E+"common.rs", "let (token_0, token_1) = if x_to_y {", "let (token_0, token_1) = if x_to_y || !by_amount_in {")]),
 ("b-from-refund", "bug", [("interface.rs", "let refund_amount = attached - self.amount;", "let refund_amount = if self.amount.is_zero() { Uint128::zero() } else { attached - self.amount };")]),
 ("b-from-short", "bug", [("interface.rs", "if attached < self.amount {", "if attached < self.amount && !attached.is_zero() {"),("interface.rs","let refund_amount = attached - self.amount;","let refund_amount = attached.checked_sub(self.amount).unwrap_or_default();")]),
 ("b-quote-price", "bug", [(E+"query.rs", "target_sqrt_price: calculate_swap_result.pool.sqrt_price,", "target_sqrt_price: calculate_swap_result.start_sqrt_price,")]),
 ("b-closest-fee", "bug", [(E+"common.rs", "pool_key.fee_tier.fee,\n        )?;", "CONFIG.load(store)?.protocol_fee,\n        )?;")]),
 # --- refactorings
 ("r-swap-loop", "ref", [(E+"common.rs", "while !remaining_amount.is_zero() {", "loop {\n        if remaining_amount.is_zero() {\n            break;\n        }")]),
 ("r-swap-used", "ref", [(E+"common.rs", """        if by_amount_in {
            remaining_amount = remaining_amount
                .checked_sub(result.amount_in + result.fee_amount)
                .map_err(|_| ContractError::Sub)?;
        } else {
            remaining_amount = remaining_amount
                .checked_sub(result.amount_out)
                .map_err(|_| ContractError::Sub)?;
        }
""", """        let consumed = match by_amount_in {
            true => result.amount_in + result.fee_amount,
            false => result.amount_out,
        };
        remaining_amount = remaining_amount.checked_sub(consumed).map_err(|_| ContractError::Sub)?;
""")]),
 ("r-swap-helper", "ref", [(E+"common.rs", """        let reached_tick_limit = match x_to_y {
            true => pool.current_tick_index <= tick_limit,
            false => pool.current_tick_index >= tick_limit,
        };

        if reached_tick_limit {
            return Err(ContractError::TickLimitReached {});
        }
""", """        ensure_inside(x_to_y, pool.current_tick_index, tick_limit)?;
"""), (E+"common.rs", "#[allow(clippy::too_many_arguments)]\npub fn swap_internal(", """fn ensure_inside(down: bool, tick: i32, bound: i32) -> Result<(), ContractError> {
    if down {
        if tick <= bound {
            return Err(ContractError::TickLimitReached {});
        }
        return Ok(());
    }
    if tick >= bound {
        return Err(ContractError::TickLimitReached {});
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
pub fn swap_internal(""")]),
 ("r-swap-ticks-iter", "ref", [(E+"common.rs", "    for tick in &calculate_swap_result.ticks {\n        state::update_tick(store, pool_key, tick.index, tick)?;\n    }\n", "    calculate_swap_result\n        .ticks\n        .iter()\n        .try_for_each(|tick| state::update_tick(store, pool_key, tick.index, tick))?;\n")]),
 ("r-swap-ticks-index", "ref", [(E+"common.rs", "    for tick in &calculate_swap_result.ticks {\n        state::update_tick(store, pool_key, tick.index, tick)?;\n    }\n", "    let mut i = 0;\n    while i < calculate_swap_result.ticks.len() {\n        let tick = &calculate_swap_result.ticks[i];\n        state::update_tick(store, pool_key, tick.index, tick)?;\n        i += 1;\n    }\n")]),
 ("r-swap-ticks-range", "ref", [(E+"common.rs", "    for tick in &calculate_swap_result.ticks {\n        state::update_tick(store, pool_key, tick.index, tick)?;\n    }\n", "    for i in 0..calculate_swap_result.ticks.len() {\n        let tick = calculate_swap_result.ticks[i];\n        state::update_tick(store, pool_key, tick.index, &tick)?;\n    }\n")]),
 ("r-save-before-ticks", "ref", [(E+"common.rs", "    for tick in &calculate_swap_result.ticks {\n        state::update_tick(store, pool_key, tick.index, tick)?;\n    }\n\n    POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?;\n", "    POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?;\n    for tick in calculate_swap_result.ticks.iter() {\n        state::update_tick(store, pool_key, tick.index, tick)?;\n    }\n\n")]),
 ("r-route-fold", "ref", [(E+"common.rs", """    for swap_hop in &swaps {
        let sqrt_price_limit = if swap_hop.x_to_y {
            SqrtPrice::new(MIN_SQRT_PRICE)
        } else {
            SqrtPrice::new(MAX_SQRT_PRICE)
        };

        next_swap_amount = calculate_swap(
            store,
            current_timestamp,
            &swap_hop.pool_key,
            swap_hop.x_to_y,
            next_swap_amount,
            true,
            sqrt_price_limit,
        )?
        .amount_out;
    }

    Ok(next_swap_amount)
}

pub fn tickmap""", """    swaps.iter().try_fold(amount_in, |amount, swap_hop| {
        let sqrt_price_limit = if swap_hop.x_to_y {
            SqrtPrice::new(MIN_SQRT_PRICE)
        } else {
            SqrtPrice::new(MAX_SQRT_PRICE)
        };

        calculate_swap(
            store,
            current_timestamp,
            &swap_hop.pool_key,
            swap_hop.x_to_y,
            amount,
            true,
            sqrt_price_limit,
        )
        .map(|r| r.amount_out)
    })
}

pub fn tickmap"""), (E+"common.rs","    let mut next_swap_amount = amount_in;\n\n    let current_timestamp = env.block.time.millis();","    let current_timestamp = env.block.time.millis();")]),
 ("r-cross-match", "ref", [("storage/tick.rs", """        if (pool.current_tick_index >= self.index) ^ self.sign {
            pool.liquidity = pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;
        } else {
            pool.liquidity = pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)?;
        }
""", """        let going_down = pool.current_tick_index >= self.index;
        pool.liquidity = match (going_down, self.sign) {
            (true, false) | (false, true) => pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?,
            (true, true) | (false, false) => pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)?,
        };
""")]),
 ("r-addfee-early", "ref", [("storage/pool.rs", """        let fee_growth = FeeGrowth::from_fee(self.liquidity, pool_fee)?;

        if in_x {
            self.fee_growth_global_x = self.fee_growth_global_x.unchecked_add(fee_growth);
            self.fee_protocol_token_x += protocol_fee;
        } else {
            self.fee_growth_global_y = self.fee_growth_global_y.unchecked_add(fee_growth);
            self.fee_protocol_token_y += protocol_fee;
        }
""", """        let fee_growth = FeeGrowth::from_fee(self.liquidity, pool_fee)?;
        let (growth, counter) = if in_x {
            (&mut self.fee_growth_global_x, &mut self.fee_protocol_token_x)
        } else {
            (&mut self.fee_growth_global_y, &mut self.fee_protocol_token_y)
        };
        *growth = growth.unchecked_add(fee_growth);
        *counter += protocol_fee;
""")]),
 ("r-from-let-else", "ref", [("interface.rs", """                let attached = match info.funds.iter().find(|x| x.denom.eq(denom)) {
                    Some(coin) => coin.amount,
                    None => Uint128::zero(),
                };""", """                let attached = info
                    .funds
                    .iter()
                    .find(|x| x.denom == *denom)
                    .map(|coin| coin.amount)
                    .unwrap_or_default();""")]),
 ("r-from-loop", "ref", [("interface.rs", """                let attached = match info.funds.iter().find(|x| x.denom.eq(denom)) {
                    Some(coin) => coin.amount,
                    None => Uint128::zero(),
                };""", """                let mut attached = Uint128::zero();
                for coin in info.funds.iter() {
                    if coin.denom.eq(denom) {
                        attached = coin.amount;
                        break;
                    }
                }""")]),
 ("r-any-loop", "ref", [(E+"common.rs", """    if pos
        .approvals
        .iter()
        .any(|apr| apr.spender == info.sender && !apr.expires.is_expired(&env.block))
    {
        return Ok(());
    }
""", """    for apr in &pos.approvals {
        if apr.spender == info.sender && !apr.expires.is_expired(&env.block) {
            return Ok(());
        }
    }
""")]),
]
