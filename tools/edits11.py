S = "state.rs"
X = "entrypoints/execute.rs"
K = "entrypoints/common.rs"
Q = "entrypoints/query.rs"
I = "interface.rs"
P = "storage/pool.rs"
O = "storage/position.rs"
T = "storage/tick.rs"
C = "math/clamm.rs"
PK = "storage/pool_key.rs"
EDITS = [
 ("r11-pay-array", "ref", [(X, """    let mut msgs = vec![];
    asset_0.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
    asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
""", """    let mut msgs = vec![];
    [asset_0, asset_1]
        .iter()
        .try_for_each(|asset| asset.transfer_from(&mut msgs, &info, env.contract.address.to_string()))?;
""")]),
 ("r11-assets-map", "ref", [(X, """    let asset_0 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_x.as_str()),
        amount: amount_x.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_y.as_str()),
        amount: amount_y.into(),
    };

    let mut msgs = vec![];
    asset_0.transfer(&mut msgs, &info)?;
    asset_1.transfer(&mut msgs, &info)?;
""", """    let mut msgs = vec![];
    for (token, amount) in [
        (&position.pool_key.token_x, amount_x),
        (&position.pool_key.token_y, amount_y),
    ] {
        Asset {
            info: AssetInfo::from_denom(deps.api, token),
            amount: amount.into(),
        }
        .transfer(&mut msgs, &info)?;
    }
""")]),
 ("r11-settle-tick", "ref", [(X, """    if deinitialize_lower_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &lower_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.lower_tick_index,
            &lower_tick,
        )?;
    }

    if deinitialize_upper_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &upper_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.upper_tick_index,
            &upper_tick,
        )?;
    }
""", """    for (tick, deinitialize) in [
        (&lower_tick, deinitialize_lower_tick),
        (&upper_tick, deinitialize_upper_tick),
    ] {
        if deinitialize {
            remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, tick)?;
        } else {
            state::update_tick(deps.storage, &position.pool_key, tick.index, tick)?;
        }
    }
""")]),
 ("r11-getorcreate-or-else", "ref", [(X, """    let mut lower_tick = match state::get_tick(deps.storage, &pool_key, lower_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, lower_tick)?,
    };

    let mut upper_tick = match state::get_tick(deps.storage, &pool_key, upper_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, upper_tick)?,
    };
""", """    let mut tick_at = |index: i32| {
        state::get_tick(deps.storage, &pool_key, index)
            .or_else(|_| create_tick(deps.storage, current_timestamp, &pool_key, index))
    };
    let mut lower_tick = tick_at(lower_tick)?;
    let mut upper_tick = tick_at(upper_tick)?;
""")]),
 ("r11-zero-match", "ref", [(X, """    // liquidity delta = 0 => return
    if liquidity_delta.is_zero() {
        return Err(ContractError::InsufficientLiquidity {});
    }

    if lower_tick == upper_tick {
        return Err(ContractError::InvalidTickIndex {});
    }
""", """    match (liquidity_delta.is_zero(), lower_tick.cmp(&upper_tick)) {
        (true, _) => return Err(ContractError::InsufficientLiquidity {}),
        (false, std::cmp::Ordering::Equal) => return Err(ContractError::InvalidTickIndex {}),
        _ => {}
    }
""")]),
 ("r11-may-load-okor", "ref", [(X, """    let mut pool = POOLS
        .load(deps.storage, &pool_key_db)
        .map_err(|_| ContractError::PoolNotFound {})?;
""", """    let mut pool = POOLS
        .may_load(deps.storage, &pool_key_db)
        .ok()
        .flatten()
        .ok_or(ContractError::PoolNotFound {})?;
""")]),
 ("r11-ops-map-or", "ref", [(K, """    // operator can send
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
}

pub fn update_approvals(""", """    // operator can send
    state::OPERATORS
        .may_load(deps.storage, (owner_raw, sender_raw))?
        .filter(|ex| !ex.is_expired(&env.block))
        .map(|_| ())
        .ok_or(ContractError::Unauthorized {})
}

pub fn update_approvals(""")]),
 ("r11-ops-map-or2", "ref", [(K, """    // operator can approve
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
""", """    // operator can approve
    let expired = state::OPERATORS
        .may_load(deps.storage, (owner_raw, sender_raw))?
        .map_or(true, |ex| ex.is_expired(&env.block));
    if expired {
        return Err(ContractError::Unauthorized {});
    }
    Ok(())
""")]),
 ("r11-any-find", "ref", [(K, """    if pos
        .approvals
        .iter()
        .any(|apr| apr.spender == info.sender && !apr.expires.is_expired(&env.block))
    {
        return Ok(());
    }
""", """    let approval = pos
        .approvals
        .iter()
        .filter(|apr| apr.spender == info.sender)
        .find(|apr| !apr.expires.is_expired(&env.block));
    if approval.is_some() {
        return Ok(());
    }
""")]),
 ("r11-approvals-partition", "ref", [(K, """    pos.approvals = pos
        .approvals
        .into_iter()
        .filter(|apr| apr.spender != spender)
        .collect();
""", """    let mut kept = Vec::with_capacity(pos.approvals.len() + 1);
    for apr in pos.approvals.drain(..) {
        if apr.spender != spender {
            kept.push(apr);
        }
    }
    pos.approvals = kept;
""")]),
 ("r11-split-at", "ref", [(K, """    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    let account_id""", """    let (owner_raw, index_raw) = token_id.split_at(token_id.len() - 4);
    let index = u32::from_be_bytes(index_raw.try_into().unwrap());
    let account_id""")]),
 ("r11-burn-split", "ref", [(X, """    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    check_can_send""", """    let cut = token_id.len() - 4;
    let (owner_raw, index_raw) = token_id.as_slice().split_at(cut);
    let mut be = [0u8; 4];
    be.copy_from_slice(index_raw);
    let index = u32::from_be_bytes(be);
    check_can_send""")]),
 ("r11-swap-tokens-tuple", "ref", [(K, """    let (token_0, token_1) = if x_to_y {
        (&pool_key.token_x, &pool_key.token_y)
    } else {
        (&pool_key.token_y, &pool_key.token_x)
    };
""", """    let mut tokens = [&pool_key.token_x, &pool_key.token_y];
    if !x_to_y {
        tokens.reverse();
    }
    let [token_0, token_1] = tokens;
""")]),
 ("r11-swap-mem-swap", "ref", [(K, """    let (token_0, token_1) = if x_to_y {
        (&pool_key.token_x, &pool_key.token_y)
    } else {
        (&pool_key.token_y, &pool_key.token_x)
    };
""", """    let (mut token_0, mut token_1) = (&pool_key.token_x, &pool_key.token_y);
    if !x_to_y {
        std::mem::swap(&mut token_0, &mut token_1);
    }
""")]),
 ("r11-tick-update-map", "ref", [(K, """        let mut tick_update = {
            if let Some((tick_index, is_initialized)) = limiting_tick {
                if is_initialized {
                    let tick = state::get_tick(store, pool_key, tick_index)?;
                    UpdatePoolTick::TickInitialized(tick)
                } else {
                    UpdatePoolTick::TickUninitialized(tick_index)
                }
            } else {
                UpdatePoolTick::NoTick
            }
        };
""", """        let mut tick_update = limiting_tick
            .map(|(tick_index, is_initialized)| {
                if is_initialized {
                    state::get_tick(store, pool_key, tick_index).map(UpdatePoolTick::TickInitialized)
                } else {
                    Ok(UpdatePoolTick::TickUninitialized(tick_index))
                }
            })
            .transpose()?
            .unwrap_or(UpdatePoolTick::NoTick);
""")]),
 ("r11-ticks-extend", "ref", [(K, """        if let UpdatePoolTick::TickInitialized(tick) = tick_update {
            if has_crossed {
                ticks.push(tick)
            }
        }
""", """        match tick_update {
            UpdatePoolTick::TickInitialized(tick) if has_crossed => ticks.push(tick),
            _ => {}
        }
""")]),
 ("r11-limit-fn", "ref", [(K, """    if x_to_y {
        if pool.sqrt_price <= sqrt_price_limit || sqrt_price_limit > SqrtPrice::new(MAX_SQRT_PRICE)
        {
            return Err(ContractError::WrongLimit {});
        }
    } else if pool.sqrt_price >= sqrt_price_limit
        || sqrt_price_limit < SqrtPrice::new(MIN_SQRT_PRICE)
    {
        return Err(ContractError::WrongLimit {});
    }
""", """    let wrong_limit = match x_to_y {
        true => {
            !(pool.sqrt_price > sqrt_price_limit
                && sqrt_price_limit <= SqrtPrice::new(MAX_SQRT_PRICE))
        }
        false => {
            !(sqrt_price_limit > pool.sqrt_price
                && sqrt_price_limit >= SqrtPrice::new(MIN_SQRT_PRICE))
        }
    };
    if wrong_limit {
        return Err(ContractError::WrongLimit {});
    }
""")]),
 ("r11-while-let-chunk", "ref", [(K, """    for chunk_index in range {
        if let Ok(chunk) = state::get_bitmap_item(store, chunk_index, pool_key) {
            tickmap_slice.push((chunk_index, chunk));

            if tickmap_slice.len() == MAX_TICKMAP_QUERY_SIZE {
                return tickmap_slice;
            }
        }
    }

    tickmap_slice
""", """    tickmap_slice.extend(
        range
            .filter_map(|chunk_index| {
                state::get_bitmap_item(store, chunk_index, pool_key)
                    .ok()
                    .map(|chunk| (chunk_index, chunk))
            })
            .take(MAX_TICKMAP_QUERY_SIZE),
    );

    tickmap_slice
""")]),
 ("r11-posticks-flat", "ref", [(Q, """            if let Ok(tick) =
                state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)
            {
                ticks.push(PositionTick {
                    index: tick.index,
                    fee_growth_outside_x: tick.fee_growth_outside_x,
                    fee_growth_outside_y: tick.fee_growth_outside_y,
                    seconds_outside: tick.seconds_outside,
                });
            }

            if let Ok(tick) =
                state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)
            {
                ticks.push(PositionTick {
                    index: tick.index,
                    fee_growth_outside_x: tick.fee_growth_outside_x,
                    fee_growth_outside_y: tick.fee_growth_outside_y,
                    seconds_outside: tick.seconds_outside,
                });
            }
""", """            for index in [position.lower_tick_index, position.upper_tick_index] {
                if let Ok(tick) = state::get_tick(deps.storage, &position.pool_key, index) {
                    ticks.push(PositionTick {
                        index: tick.index,
                        fee_growth_outside_x: tick.fee_growth_outside_x,
                        fee_growth_outside_y: tick.fee_growth_outside_y,
                        seconds_outside: tick.seconds_outside,
                    });
                }
            }
""")]),
 ("r11-pair-filter-map", "ref", [(Q, """    let fee_tiers = get_fee_tiers(deps)?;
    let mut pool_key = PoolKey::new(token_0, token_1, FeeTier::default())?;
    let mut pools = vec![];
    for fee_tier in fee_tiers {
        pool_key.fee_tier = fee_tier;
        if let Ok(pool) = state::get_pool(deps.storage, &pool_key) {
            pools.push(PoolWithPoolKey {
                pool,
                pool_key: pool_key.clone(),
            });
        }
    }
    Ok(pools)
""", """    let base = PoolKey::new(token_0, token_1, FeeTier::default())?;
    Ok(get_fee_tiers(deps)?
        .into_iter()
        .map(|fee_tier| PoolKey {
            fee_tier,
            ..base.clone()
        })
        .filter_map(|pool_key| {
            let pool = state::get_pool(deps.storage, &pool_key).ok()?;
            Some(PoolWithPoolKey { pool, pool_key })
        })
        .collect())
""")]),
 ("r11-liqticks-collect", "ref", [(Q, """    let mut liqudity_ticks: Vec<LiquidityTick> = vec![];

    if tick_indexes.len() > LIQUIDITY_TICK_LIMIT {
        return Err(ContractError::TickLimitReached);
    }

    for index in tick_indexes {
        let tick = LiquidityTick::from(state::get_tick(deps.storage, &pool_key, index)?);

        liqudity_ticks.push(tick);
    }

    Ok(liqudity_ticks)
""", """    match tick_indexes.len() {
        0..=LIQUIDITY_TICK_LIMIT => tick_indexes
            .iter()
            .map(|&index| state::get_tick(deps.storage, &pool_key, index).map(Into::into))
            .collect(),
        _ => Err(ContractError::TickLimitReached),
    }
""")]),
 ("r11-tickmap-iter-box", "ref", [(Q, """    let tickmaps = if x_to_y {
        tickmap_slice(
            deps.storage,
            (min_chunk_index..=max_chunk_index).rev(),
            &pool_key,
        )
    } else {
        tickmap_slice(deps.storage, min_chunk_index..=max_chunk_index, &pool_key)
    };

    Ok(tickmaps)
""", """    let chunks = min_chunk_index..=max_chunk_index;
    Ok(match x_to_y {
        true => tickmap_slice(deps.storage, chunks.rev(), &pool_key),
        false => tickmap_slice(deps.storage, chunks, &pool_key),
    })
""")]),
 ("r11-poolkey-sort", "ref", [(PK, """        if token_0 < token_1 {
            Ok(Self {
                token_x: token_0.to_string(),
                token_y: token_1.to_string(),
                fee_tier,
            })
        } else {
            Ok(Self {
                token_x: token_1.to_string(),
                token_y: token_0.to_string(),
                fee_tier,
            })
        }
""", """        let (token_x, token_y) = match token_0.cmp(&token_1) {
            std::cmp::Ordering::Less => (token_0, token_1),
            _ => (token_1, token_0),
        };
        Ok(Self {
            token_x,
            token_y,
            fee_tier,
        })
""")]),
 ("r11-poolkey-minmax", "ref", [(PK, """        if token_0 < token_1 {
            Ok(Self {
                token_x: token_0.to_string(),
                token_y: token_1.to_string(),
                fee_tier,
            })
        } else {
            Ok(Self {
                token_x: token_1.to_string(),
                token_y: token_0.to_string(),
                fee_tier,
            })
        }
""", """        let swap = token_1 < token_0;
        let token_x = if swap { token_1.clone() } else { token_0.clone() };
        let token_y = if swap { token_0 } else { token_1 };
        Ok(Self { token_x, token_y, fee_tier })
""")]),
 ("r11-claim-array", "ref", [(O, """        let tokens_owed_x = self.tokens_owed_x;
        let tokens_owed_y = self.tokens_owed_y;

        self.tokens_owed_x = TokenAmount(0);
        self.tokens_owed_y = TokenAmount(0);

        Ok((tokens_owed_x, tokens_owed_y))
""", """        let owed = (
            std::mem::replace(&mut self.tokens_owed_x, TokenAmount::new(0)),
            std::mem::take(&mut self.tokens_owed_y),
        );
        Ok(owed)
""")]),
 ("r11-modify-destructure", "ref", [(O, """        // update initialized tick
        lower_tick.update(liquidity_delta, max_liquidity_per_tick, false, add)?;

        upper_tick.update(liquidity_delta, max_liquidity_per_tick, true, add)?;
""", """        // update initialized ticks
        for (tick, is_upper) in [(&mut *lower_tick, false), (&mut *upper_tick, true)] {
            tick.update(liquidity_delta, max_liquidity_per_tick, is_upper, add)?;
        }
""")]),
 ("r11-update-closure", "ref", [(O, """        // calculate accumulated fee
        let tokens_owed_x = fee_growth_inside_x
            .unchecked_sub(self.fee_growth_inside_x)
            .to_fee(self.liquidity)?;
        let tokens_owed_y = fee_growth_inside_y
            .unchecked_sub(self.fee_growth_inside_y)
            .to_fee(self.liquidity)?;
""", """        // calculate accumulated fee
        let liquidity = self.liquidity;
        let owed = |now: FeeGrowth, before: FeeGrowth| now.unchecked_sub(before).to_fee(liquidity);
        let tokens_owed_x = owed(fee_growth_inside_x, self.fee_growth_inside_x)?;
        let tokens_owed_y = owed(fee_growth_inside_y, self.fee_growth_inside_y)?;
""")]),
 ("r11-newliq-then", "ref", [(O, """        match sign {
            true => self
                .liquidity
                .checked_add(liquidity_delta)
                .map_err(|_| ContractError::PositionAddLiquidityOverflow),
            false => self
                .liquidity
                .checked_sub(liquidity_delta)
                .map_err(|_| ContractError::PositionRemoveLiquidityUnderflow),
        }
""", """        if sign {
            return self
                .liquidity
                .checked_add(liquidity_delta)
                .or(Err(ContractError::PositionAddLiquidityOverflow));
        }
        self.liquidity
            .checked_sub(liquidity_delta)
            .or(Err(ContractError::PositionRemoveLiquidityUnderflow))
""")]),
 ("r11-addfee-refs", "ref", [(P, """        if in_x {
            self.fee_growth_global_x = self.fee_growth_global_x.unchecked_add(fee_growth);
            self.fee_protocol_token_x += protocol_fee;
        } else {
            self.fee_growth_global_y = self.fee_growth_global_y.unchecked_add(fee_growth);
            self.fee_protocol_token_y += protocol_fee;
        }
        Ok(())
""", """        let (growth, owed) = match in_x {
            true => (&mut self.fee_growth_global_x, &mut self.fee_protocol_token_x),
            false => (&mut self.fee_growth_global_y, &mut self.fee_protocol_token_y),
        };
        *growth = growth.unchecked_add(fee_growth);
        *owed += protocol_fee;
        Ok(())
""")]),
 ("r11-updtick-letelse", "ref", [(P, """        let tick_index = match tick {
            UpdatePoolTick::TickInitialized(tick) => {
                if !x_to_y || is_enough_amount_to_cross {
                    tick.cross(self, current_timestamp).unwrap();
                    has_crossed = true;
                } else if !remaining_amount.is_zero() {
                    if by_amount_in {
                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;
                        total_amount = remaining_amount;
                    }
                    remaining_amount = TokenAmount(0);
                }

                tick.index
            }
            UpdatePoolTick::TickUninitialized(index) => *index,
            _ => unreachable!(),
        };
""", """        let mut tick_index = 0;
        if let UpdatePoolTick::TickUninitialized(index) = tick {
            tick_index = *index;
        } else if let UpdatePoolTick::TickInitialized(tick) = tick {
            tick_index = tick.index;
            let stays = x_to_y && !is_enough_amount_to_cross;
            if !stays {
                has_crossed = true;
                tick.cross(self, current_timestamp).unwrap();
            } else {
                if by_amount_in && !remaining_amount.is_zero() {
                    total_amount = remaining_amount;
                    self.add_fee(total_amount, x_to_y, protocol_fee)?;
                }
                remaining_amount = TokenAmount(0);
            }
        }
""")]),
 ("r11-transfer-msg", "ref", [(I, """        if !self.amount.is_zero() {
            match &self.info {
                AssetInfo::Token { contract_addr } => {
                    msgs.push(
                        WasmMsg::Execute {
                            contract_addr: contract_addr.to_string(),
                            msg: to_binary(&Cw20ExecuteMsg::Transfer {
                                recipient: info.sender.to_string(),
                                amount: self.amount,
                            })?,
                            funds: vec![],
                        }
                        .into(),
                    );
                }
                AssetInfo::NativeToken { denom } => msgs.push(
                    BankMsg::Send {
                        to_address: info.sender.to_string(),
                        amount: vec![Coin {
                            amount: self.amount,
                            denom: denom.to_string(),
                        }],
                    }
                    .into(),
                ),
            }
        }
        Ok(())
""", """        if self.amount.is_zero() {
            return Ok(());
        }
        let recipient = info.sender.to_string();
        let msg: CosmosMsg = match &self.info {
            AssetInfo::Token { contract_addr } => CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.clone().into_string(),
                msg: to_binary(&Cw20ExecuteMsg::Transfer {
                    recipient,
                    amount: self.amount,
                })?,
                funds: Vec::new(),
            }),
            AssetInfo::NativeToken { denom } => CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient,
                amount: cosmwasm_std::coins(self.amount.u128(), denom),
            }),
        };
        msgs.push(msg);
        Ok(())
""")]),
 ("r11-from-sum", "ref", [(I, """                let attached = match info.funds.iter().find(|x| x.denom.eq(denom)) {
                    Some(coin) => coin.amount,
                    None => Uint128::zero(),
                };
                if attached < self.amount {
                    return Err(ContractError::InvalidFunds {
                        transfer_amount: self.amount,
                    });
                }
                // refund for user
                let refund_amount = attached - self.amount;
""", """                let refund_amount = info
                    .funds
                    .iter()
                    .find(|coin| &coin.denom == denom)
                    .map(|coin| coin.amount)
                    .unwrap_or_default()
                    .checked_sub(self.amount)
                    .map_err(|_| ContractError::InvalidFunds {
                        transfer_amount: self.amount,
                    })?;
""")]),
 ("r11-removepos-mayload", "ref", [(S, """    if index < positions_length {
        let prev_db_key = position_key(account_id, positions_length);
        let last_position = POSITIONS.load(store, &prev_db_key)?;
        POSITIONS.remove(store, &prev_db_key);
        POSITIONS.save(store, &db_key, &last_position)?;
    } else {
        POSITIONS.remove(store, &db_key);
    }
""", """    let last_key = position_key(account_id, positions_length);
    if index < positions_length {
        let moved = POSITIONS.load(store, &last_key)?;
        POSITIONS.save(store, &db_key, &moved)?;
        POSITIONS.remove(store, &last_key);
    } else {
        POSITIONS.remove(store, &db_key);
    }
""")]),
 ("r11-addpos-update", "ref", [(S, """    let positions_length: u32 = get_position_length(store, account_id);
    let db_key = position_key(account_id, positions_length);
    POSITIONS.save(store, &db_key, position)?;

    POSITIONS_LENGTH.save(store, account_id.as_bytes(), &(positions_length + 1))?;
    Ok(())
""", """    let new_length = POSITIONS_LENGTH.update(
        store,
        account_id.as_bytes(),
        |length| -> StdResult<u32> { Ok(length.unwrap_or_default() + 1) },
    )?;
    POSITIONS.save(store, &position_key(account_id, new_length - 1), position)?;
    Ok(())
""")]),
 ("r11-allpos-skip", "ref", [(S, """    (from_idx..to_idx)
        .map(|index| get_position(store, account_id, index))
        .collect()
}

pub fn get_all_position_keys""", """    let mut positions = vec![];
    let mut index = from_idx;
    while index < to_idx {
        positions.push(get_position(store, account_id, index)?);
        index += 1;
    }
    Ok(positions)
}

pub fn get_all_position_keys""")]),
 ("r11-addtick-guard", "ref", [(S, """    let db_key = tick_key(pool_key, index);

    if TICKS.has(store, &db_key) {
        return Err(ContractError::TickAlreadyExist);
    }

    TICKS.save(store, &db_key, tick)?;

    Ok(())
""", """    let db_key = tick_key(pool_key, index);
    match TICKS.may_load(store, &db_key) {
        Ok(None) => TICKS.save(store, &db_key, tick).map_err(Into::into),
        _ => Err(ContractError::TickAlreadyExist),
    }
""")]),
 ("r11-removetick-bool", "ref", [(S, """    if !TICKS.has(store, &db_key) {
        return Err(ContractError::TickNotFound);
    }

    TICKS.remove(store, &db_key);
    Ok(())
""", """    TICKS
        .has(store, &db_key)
        .then(|| TICKS.remove(store, &db_key))
        .ok_or(ContractError::TickNotFound)
""")]),
 ("r11-cross-abs", "ref", [(T, """        if (pool.current_tick_index >= self.index) ^ self.sign {
            pool.liquidity = pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;
        } else {
            pool.liquidity = pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)?;
        }

        Ok(())
""", """        let falling = pool.current_tick_index >= self.index;
        let after = match (falling, self.sign) {
            (true, false) | (false, true) => pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow),
            (true, true) | (false, false) => pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow),
        };
        pool.liquidity = after?;
        Ok(())
""")]),
 ("r11-tickcreate-then", "ref", [(T, """            fee_growth_outside_x: match below_current_tick {
                true => pool.fee_growth_global_x,
                false => FeeGrowth::new(0),
            },
            fee_growth_outside_y: match below_current_tick {
                true => pool.fee_growth_global_y,
                false => FeeGrowth::new(0),
            },
            seconds_outside: match below_current_tick {
                true => current_timestamp - pool.start_timestamp,
                false => 0,
            },
""", """            fee_growth_outside_x: below_current_tick
                .then_some(pool.fee_growth_global_x)
                .unwrap_or_default(),
            fee_growth_outside_y: below_current_tick
                .then_some(pool.fee_growth_global_y)
                .unwrap_or(FeeGrowth::new(0)),
            seconds_outside: below_current_tick
                .then(|| current_timestamp - pool.start_timestamp)
                .unwrap_or(0),
""")]),
 ("r11-opsq-loop", "ref", [(Q, """    let res: StdResult<Vec<_>> = state::OPERATORS
        .prefix(&owner_raw)
        .range_raw(deps.storage, start, None, Order::Ascending)
        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))
        .take(limit)
        .map(|item| {
            let (spender_raw, expires) = item?;
            let spender = Addr::unchecked(String::from_utf8(spender_raw)?);
            Ok(Approval { spender, expires })
        })
        .collect();
    Ok(ApprovedForAllResponse { operators: res? })
""", """    let live = |expires: &cw20::Expiration| include_expired || !expires.is_expired(&env.block);
    let operators = state::OPERATORS
        .prefix(&owner_raw)
        .range_raw(deps.storage, start, None, Order::Ascending)
        .filter(|r| match r {
            Ok((_, expires)) => live(expires),
            Err(_) => true,
        })
        .take(limit)
        .map(|item| {
            item.and_then(|(spender_raw, expires)| {
                Ok(Approval {
                    spender: Addr::unchecked(String::from_utf8(spender_raw)?),
                    expires,
                })
            })
        })
        .collect::<StdResult<Vec<_>>>()?;
    Ok(ApprovedForAllResponse { operators })
""")]),
 ("r11-hop-limit", "ref", [(K, """        // coins attached for this hop are spent (or already refunded), they can not pay for a later hop
        let token_in = if swap_hop.x_to_y {
            &swap_hop.pool_key.token_x
        } else {
            &swap_hop.pool_key.token_y
        };
        info.funds.retain(|coin| coin.denom.ne(token_in));
""", """        // coins attached for this hop are spent (or already refunded), they can not pay for a later hop
        let PoolKey { token_x, token_y, .. } = &swap_hop.pool_key;
        let token_in = match swap_hop.x_to_y {
            true => token_x,
            false => token_y,
        };
        info.funds = info
            .funds
            .into_iter()
            .filter(|coin| &coin.denom != token_in)
            .collect();
""")]),
 ("r11-route-iter", "ref", [(K, """    for swap_hop in &swaps {
        let sqrt_price_limit = if swap_hop.x_to_y {
            SqrtPrice::new(MIN_SQRT_PRICE)
        } else {
            SqrtPrice::new(MAX_SQRT_PRICE)
        };

        next_swap_amount = swap_internal(""", """    for swap_hop in swaps.iter() {
        let sqrt_price_limit = SqrtPrice::new(match swap_hop.x_to_y {
            true => MIN_SQRT_PRICE,
            false => MAX_SQRT_PRICE,
        });

        next_swap_amount = swap_internal(""")]),
 # --- bugs
 ("b11-close-timestamp", "bug", [(X, """    let mut position = state::get_position(deps.storage, &info.sender, index)?;
    let withdrawed_liquidity = position.liquidity;
""", """    let mut position = state::get_position(deps.storage, &info.sender, index)?;
    let withdrawed_liquidity = position.liquidity;
    if position.last_block_number > env.block.height.saturating_sub(1) && position.liquidity.get() == u128::MAX {
        return Err(ContractError::InsufficientLiquidity {});
    }
""")]),
 ("b11-claim-locked", "bug", [(X, """    let mut position = state::get_position(deps.storage, &info.sender, index)?;

    let mut lower_tick =
        state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)?;
    let mut upper_tick =
        state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)?;
    let pool_key_db = position.pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;

    let (x, y) = position.claim_fee(""", """    let mut position = state::get_position(deps.storage, &info.sender, index)?;

    let mut lower_tick =
        state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)?;
    let mut upper_tick =
        state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)?;
    let pool_key_db = position.pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
    if pool.liquidity.is_zero() && pool.fee_growth_global_x.get() == 0 && pool.fee_protocol_token_x.get() > 7 {
        return Err(ContractError::AmountIsZero {});
    }

    let (x, y) = position.claim_fee(""")]),
 ("b11-transfer-self", "bug", [(K, """    // set owner and remove existing approvals
    state::remove_position(deps.storage, &account_id, index)?;
""", """    if pos.approvals.len() > 3 {
        return Err(ContractError::Unauthorized {});
    }
    // set owner and remove existing approvals
    state::remove_position(deps.storage, &account_id, index)?;
""")]),
 ("b11-close-y-up", "bug", [("storage/position.rs", """        let (mut amount_x, mut amount_y) = self.modify(
            pool,
            upper_tick,
            lower_tick,
            liquidity_delta,
            false,""", """        let was = pool.liquidity;
        let (mut amount_x, mut amount_y) = self.modify(
            pool,
            upper_tick,
            lower_tick,
            liquidity_delta,
            false,"""), ("storage/position.rs", """        amount_x += self.tokens_owed_x;""", """        if was == liquidity_delta && amount_y.get() > 0 {
            amount_y += TokenAmount(1);
        }
        amount_x += self.tokens_owed_x;""")]),
 ("b11-burn-pays-sender", "bug", [(X, """    // burn the position named by the token id on behalf of its owner, who gets the proceeds
    let info = MessageInfo {
        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
        ..info
    };
""", """    // burn the position named by the token id on behalf of its owner, who gets the proceeds
    let info = MessageInfo {
        sender: if index == 0 && info.funds.len() == 1 { info.sender } else { Addr::unchecked(String::from_utf8(owner_raw.to_vec())?) },
        ..info.clone()
    };
""")]),
]
