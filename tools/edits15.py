W = "wasm/swap.rs"
TM = "wasm/collections/tickmap.rs"
PO = "wasm/storage/pool.rs"
STEP = """        // make remaining amount smaller
        if by_amount_in {
            remaining_amount -= result.amount_in + result.fee_amount;
        } else {
            remaining_amount -= result.amount_out;
        }

        total_fee_amount += result.fee_amount;

        pool.sqrt_price = result.next_sqrt_price;

        total_amount_in += result.amount_in + result.fee_amount;
        total_amount_out += result.amount_out;
"""
UPD = """        let mut tick_update = {
            if let Some((tick_index, is_initialized)) = limiting_tick {
                if is_initialized {
                    let tick = ticks.iter().find(|t| t.index as i32 == tick_index);

                    match tick {
                        Some(tick) => UpdatePoolTick::TickInitialized(*tick),
                        None => {
                            state_outdated = true;
                            break;
                        }
                    }
                } else {
                    UpdatePoolTick::TickUninitialized(tick_index)
                }
            } else {
                UpdatePoolTick::NoTick
            }
        };
"""
EDITS = [
 ("r15-sim-cost", "ref", [(W, STEP, """        let cost = result.amount_in + result.fee_amount;
        remaining_amount -= if by_amount_in { cost } else { result.amount_out };
        total_amount_in += cost;
        total_amount_out += result.amount_out;
        total_fee_amount += result.fee_amount;
        pool.sqrt_price = result.next_sqrt_price;
""")]),
 ("r15-sim-lookup", "ref", [(W, UPD, """        let mut tick_update = match limiting_tick {
            None => UpdatePoolTick::NoTick,
            Some((tick_index, false)) => UpdatePoolTick::TickUninitialized(tick_index),
            Some((tick_index, true)) => {
                let found = ticks.iter().copied().find(|t| t.index == tick_index);
                let Some(tick) = found else {
                    state_outdated = true;
                    break;
                };
                UpdatePoolTick::TickInitialized(tick)
            }
        };
""")]),
 ("r15-sim-position", "ref", [(W, """                    let tick = ticks.iter().find(|t| t.index as i32 == tick_index);
""", """                    let tick = ticks
                        .iter()
                        .position(|t| t.index == tick_index)
                        .map(|i| &ticks[i]);
""")]),
 ("r15-sim-forloop", "ref", [(W, """                    let tick = ticks.iter().find(|t| t.index as i32 == tick_index);
""", """                    let mut tick = None;
                    for t in &ticks {
                        if t.index == tick_index {
                            tick = Some(t);
                            break;
                        }
                    }
""")]),
 ("r15-sim-status", "ref", [(W, """        let reached_tick_limit = match x_to_y {
            true => pool.current_tick_index <= tick_limit,
            false => pool.current_tick_index >= tick_limit,
        };

        if reached_tick_limit {
            global_insufficient_liquidity = true;
            break;
        }
""", """        global_insufficient_liquidity = if x_to_y {
            pool.current_tick_index <= tick_limit
        } else {
            tick_limit <= pool.current_tick_index
        };
        if global_insufficient_liquidity {
            break;
        }
""")]),
 ("r15-sim-wronglimit", "ref", [(W, """    if x_to_y {
        if pool.sqrt_price <= sqrt_price_limit || sqrt_price_limit > SqrtPrice::new(MAX_SQRT_PRICE)
        {
            return Err(err!("Wrong limit"));
        }
    } else if pool.sqrt_price >= sqrt_price_limit
        || sqrt_price_limit < SqrtPrice::new(MIN_SQRT_PRICE)
    {
        return Err(err!("Wrong limit"));
    }
""", """    let allowed = match x_to_y {
        true => sqrt_price_limit < pool.sqrt_price && sqrt_price_limit <= SqrtPrice::new(MAX_SQRT_PRICE),
        false => sqrt_price_limit > pool.sqrt_price && sqrt_price_limit >= SqrtPrice::new(MIN_SQRT_PRICE),
    };
    if !allowed {
        return Err(err!("Wrong limit"));
    }
""")]),
 ("r15-map-helper", "ref", [(TM, """            let mut shifted = self.bitmap.get(&(chunk as u64)).copied().unwrap_or(0) >> bit;
""", """            let mut shifted = self.chunk_at(chunk) >> bit;
"""), (TM, """            let value = self.bitmap.get(&(chunk as u64)).copied().unwrap_or(0) as u128;
""", """            let value = u128::from(self.chunk_at(chunk));
"""), (TM, """impl Tickmap {
    pub fn next""", """impl Tickmap {
    fn chunk_at(&self, chunk: u16) -> u64 {
        match self.bitmap.get(&u64::from(chunk)) {
            Some(bits) => *bits,
            None => 0,
        }
    }

    pub fn next""")]),
 ("r15-postick", "ref", [(TM, """    let tick_range_limit = MAX_TICK - MAX_TICK % tick_spacing as i32;
    (chunk as i32 * CHUNK_SIZE * tick_spacing as i32 + bit as i32 * tick_spacing as i32)
        - tick_range_limit
""", """    let spacing = tick_spacing as i32;
    let index = chunk as i32 * CHUNK_SIZE + bit as i32;
    index * spacing - MAX_TICK / spacing * spacing
""")]),
 ("r15-ttp-js", "ref", [(TM, """    if !(tick % tick_spacing as i32 == 0) {
        return Err(err!("tick not divisible by tick spacing"));
    }

    let bitmap_index = (tick + MAX_TICK) / tick_spacing as i32;

    let chunk: u16 = (bitmap_index / CHUNK_SIZE) as u16;
    let bit: u8 = (bitmap_index % CHUNK_SIZE) as u8;

    Ok(PositionResult { chunk, bit })
""", """    if tick % tick_spacing as i32 != 0 {
        return Err(err!("tick not divisible by tick spacing"));
    }

    let (chunk, bit) = tick_to_position(tick, tick_spacing);
    Ok(PositionResult { chunk, bit })
""")]),
 ("r15-updliq", "ref", [(PO, """        if !update_liquidity {
            return Ok((x, y));
        }

        if liquidity_sign {
            self.liquidity = self
                .liquidity
                .checked_add(liquidity_delta)
                .map_err(|_| err!("update_liquidity: liquidity + liquidity_delta overflow"))?;
            Ok((x, y))
        } else {
            self.liquidity = self
                .liquidity
                .checked_sub(liquidity_delta)
                .map_err(|_| err!("update_liquidity: liquidity - liquidity_delta underflow"))?;
            Ok((x, y))
        }
""", """        self.liquidity = match (update_liquidity, liquidity_sign) {
            (false, _) => self.liquidity,
            (true, true) => self
                .liquidity
                .checked_add(liquidity_delta)
                .map_err(|_| err!("update_liquidity: liquidity + liquidity_delta overflow"))?,
            (true, false) => self
                .liquidity
                .checked_sub(liquidity_delta)
                .map_err(|_| err!("update_liquidity: liquidity - liquidity_delta underflow"))?,
        };
        Ok((x, y))
""")]),
 ("b15-sim-cross-count", "bug", [(W, "                if crossed_ticks.len() > MAX_TICK_CROSS as usize {", "                if crossed_ticks.len() >= MAX_TICK_CROSS as usize {")]),
 ("b15-sim-find-last", "bug", [(W, "                    let tick = ticks.iter().find(|t| t.index as i32 == tick_index);\n", "                    let tick = ticks.iter().find(|t| (t.index as i16) as i32 == tick_index);\n")]),
 ("b15-sim-exact-out", "bug", [(PO, """                    if by_amount_in {
                        total_amount = remaining_amount;
                    }
                    remaining_amount = TokenAmount(0);""", """                    if by_amount_in {
                        total_amount = remaining_amount;
                        remaining_amount = TokenAmount(0);
                    }""")]),
 ("b15-sim-flag", "bug", [(W, """        if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {
            global_insufficient_liquidity = true;
            break;""", """        if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {
            global_insufficient_liquidity = by_amount_in;
            break;""")]),
]
