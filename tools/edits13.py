S = "state.rs"
X = "entrypoints/execute.rs"
K = "entrypoints/common.rs"
Q = "entrypoints/query.rs"
P = "storage/pool.rs"
O = "storage/position.rs"
T = "storage/tick.rs"
C = "math/clamm.rs"
PK = "storage/pool_key.rs"
FEE_RECV = """    let config = CONFIG.load(deps.storage)?;

    if info.sender != config.admin {
        return Err(ContractError::Unauthorized {});
    }

    let pool_key_db = pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
    pool.fee_receiver = fee_receiver.to_string();
"""
DEINIT = """    if deinitialize_lower_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &lower_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.lower_tick_index,
            &lower_tick,
        )?;
    }

    if deinitialize_upper_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &upper_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.upper_tick_index,
            &upper_tick,
        )?;
    }
"""
TIERPOS = """    if let Some(pos) = config.fee_tiers.iter().position(|x| *x == fee_tier) {
        config.fee_tiers.remove(pos);
    } else {
        return Err(ContractError::FeeTierNotFound);
    }
"""
EDITS = [
 ("b13-receiver-handover", "bug", [(X, FEE_RECV, """    let config = CONFIG.load(deps.storage)?;

    let pool_key_db = pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
    if info.sender != config.admin && pool.fee_receiver != info.sender.as_str() {
        return Err(ContractError::Unauthorized {});
    }
    pool.fee_receiver = fee_receiver.to_string();
""")]),
 ("b13-withdraw-same", "bug", [(X, """    asset_0.transfer(&mut msgs, &info)?;
    asset_1.transfer(&mut msgs, &info)?;

    Ok(Response::new()
        .add_messages(msgs)
        .add_attribute("action", "withdraw_protocol_fee"))""", """    asset_0.transfer(&mut msgs, &info)?;
    if asset_1.amount != asset_0.amount {
        asset_1.transfer(&mut msgs, &info)?;
    }

    Ok(Response::new()
        .add_messages(msgs)
        .add_attribute("action", "withdraw_protocol_fee"))""")]),
 ("b13-keep-approval", "bug", [(K, """    // reset approvals when transfer
    pos.approvals = vec![];
""", """    // reset approvals when transfer
    pos.approvals.retain(|apr| apr.spender == *recipient);
""")]),
 ("b13-deinit-both", "bug", [(X, """    if deinitialize_upper_tick {
        remove_tick""", """    if deinitialize_upper_tick && !(deinitialize_lower_tick && pool.liquidity.is_zero()) {
        remove_tick""")]),
 ("b13-tier-retain-fee", "bug", [(X, TIERPOS, """    if !config.fee_tiers.contains(&fee_tier) {
        return Err(ContractError::FeeTierNotFound);
    }
    config.fee_tiers.retain(|x| x.fee != fee_tier.fee);
""")]),
 ("b13-approveall-keep", "bug", [(X, """    state::OPERATORS.save(deps.storage, (sender_raw, operator_raw), &expires)?;
""", """    if state::OPERATORS.may_load(deps.storage, (sender_raw, operator_raw))? != Some(Expiration::Never {}) {
        state::OPERATORS.save(deps.storage, (sender_raw, operator_raw), &expires)?;
    }
""")]),
 ("b13-burn-index16", "bug", [(X, """    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    check_can_send(""", """    let index = u16::from_be_bytes(token_id[token_id.len() - 2..].try_into().unwrap()) as u32;
    check_can_send(""")]),
 ("b13-send-nomsg", "bug", [(X, """        sender: info.sender.clone(),
        token_id,
        msg,
    };
""", """        sender: contract.clone(),
        token_id,
        msg,
    };
""")]),
 ("b13-swap-ticks-head", "bug", [(K, """    for tick in &calculate_swap_result.ticks {
        state::update_tick""", """    for tick in calculate_swap_result.ticks.iter().take(32) {
        state::update_tick""")]),
 ("b13-leftover-noproto", "bug", [(P, """                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;
""", """                        self.add_fee(remaining_amount, x_to_y, Percentage::new(0))?;
""")]),
 ("b13-len-keep", "bug", [(S, """    POSITIONS_LENGTH.save(store, account_id.as_bytes(), &(positions_length))?;

    Ok(position)""", """    if positions_length == 0 {
        POSITIONS_LENGTH.remove(store, account_id.as_bytes());
    } else if index != 0 || positions_length > 1 {
        POSITIONS_LENGTH.save(store, account_id.as_bytes(), &(positions_length))?;
    } else {
        POSITIONS_LENGTH.save(store, account_id.as_bytes(), &(positions_length + 1))?;
    }

    Ok(position)""")]),
 ("b13-close-inactive", "bug", [(O, """        amount_x += self.tokens_owed_x;
        amount_y += self.tokens_owed_y;

        let deinit""", """        if !pool.liquidity.is_zero() {
            amount_x += self.tokens_owed_x;
        }
        amount_y += self.tokens_owed_y;

        let deinit""")]),
 ("b13-poke-empty", "bug", [(O, """        if liquidity_delta.is_zero() && self.liquidity.is_zero() {
            return Err(ContractError::EmptyPositionPokes);
        }
""", """        if liquidity_delta.is_zero() && (self.liquidity.is_zero() || fee_growth_inside_x == self.fee_growth_inside_x && fee_growth_inside_y == self.fee_growth_inside_y) {
            return Err(ContractError::EmptyPositionPokes);
        }
""")]),
 ("b13-owed-overwrite", "bug", [(O, """        self.tokens_owed_y += tokens_owed_y;
        Ok(())""", """        self.tokens_owed_y = if tokens_owed_x.is_zero() { self.tokens_owed_y + tokens_owed_y } else { if self.tokens_owed_y < tokens_owed_y { tokens_owed_y } else { self.tokens_owed_y } };
        Ok(())""")]),
 ("b13-tick-eq-cur", "bug", [(T, """            seconds_outside: match below_current_tick {
                true => current_timestamp - pool.start_timestamp,
                false => 0,""", """            seconds_outside: match index < pool.current_tick_index {
                true => current_timestamp - pool.start_timestamp,
                false => 0,""")]),
 ("b13-cross-skip-zero", "bug", [(T, """        pool.last_timestamp = current_timestamp;
""", """        if self.liquidity_change.is_zero() {
            return Ok(());
        }
        pool.last_timestamp = current_timestamp;
""")]),
 ("r13-change-sign-zero", "ref", [(T, """            if { self.liquidity_change } > liquidity_delta {
                self.liquidity_change -= liquidity_delta;
            } else {""", """            if { self.liquidity_change } == liquidity_delta {
                self.liquidity_change = Liquidity::new(0);
                self.sign = true;
            } else if { self.liquidity_change } > liquidity_delta {
                self.liquidity_change -= liquidity_delta;
            } else {""")]),
 ("b13-exact-out-limit", "bug", [(K, """        if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {""",
  """        if by_amount_in && pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {""")]),
 ("b13-swap-route-first-min", "bug", [(X, """    if amount_out < min_amount_out {
        return Err(ContractError::AmountUnderMinimumAmountOut);
    }
""", """    if amount_out < min_amount_out && !amount_out.is_zero() && slippage != Percentage::new(0) {
        return Err(ContractError::AmountUnderMinimumAmountOut);
    }
""")]),
 ("b13-revoke-expired", "bug", [(K, """        .filter(|apr| apr.spender != spender)
        .collect();""", """        .filter(|apr| apr.spender != spender || (!add && apr.expires.is_expired(&env.block)))
        .collect();""")]),
 ("b13-operator-approve-expired", "bug", [(K, """    // operator can approve
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {""", """    // operator can approve
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if matches!(ex, Expiration::AtHeight(_)) && ex.is_expired(&env.block) {""")]),
 # refactorings
 ("r13-tier-retain-len", "ref", [(X, TIERPOS, """    let before = config.fee_tiers.len();
    config.fee_tiers.retain(|x| *x != fee_tier);
    if config.fee_tiers.len() == before {
        return Err(ContractError::FeeTierNotFound);
    }
""")]),
 ("r13-tier-position-ok", "ref", [(X, TIERPOS, """    let pos = config
        .fee_tiers
        .iter()
        .position(|tier| tier == &fee_tier)
        .ok_or(ContractError::FeeTierNotFound)?;
    let _ = config.fee_tiers.remove(pos);
""")]),
 ("r13-deinit-closure", "ref", [(X, DEINIT, """    let pool_key = position.pool_key.clone();
    let mut settle = |gone: bool, tick: &crate::Tick| -> Result<(), ContractError> {
        if gone {
            return remove_tick_and_flip_bitmap(deps.storage, &pool_key, tick);
        }
        state::update_tick(deps.storage, &pool_key, tick.index, tick)
    };
    settle(deinitialize_lower_tick, &lower_tick)?;
    settle(deinitialize_upper_tick, &upper_tick)?;
""")]),
 ("r13-deinit-array", "ref", [(X, DEINIT, """    for (gone, tick) in [
        (deinitialize_lower_tick, &lower_tick),
        (deinitialize_upper_tick, &upper_tick),
    ] {
        match gone {
            true => remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, tick)?,
            false => state::update_tick(deps.storage, &position.pool_key, tick.index, tick)?,
        }
    }
""")]),
 ("r13-funds-loop", "ref", [(K, """        info.funds.retain(|coin| coin.denom.ne(token_in));
""", """        let mut left = Vec::with_capacity(info.funds.len());
        for coin in info.funds.drain(..) {
            if coin.denom != *token_in {
                left.push(coin);
            }
        }
        info.funds = left;
""")]),
 ("r13-approvals-loop", "ref", [(K, """    pos.approvals = pos
        .approvals
        .into_iter()
        .filter(|apr| apr.spender != spender)
        .collect();
""", """    let mut kept = vec![];
    for apr in pos.approvals.iter() {
        if apr.spender == *spender {
            continue;
        }
        kept.push(apr.clone());
    }
    pos.approvals = kept;
""")]),
 ("r13-bits-leading", "ref", [(S, """            while shifted.checked_rem(2)? == 0 {
                shifted >>= 1;
                bit = bit.checked_add(1)?;
            }
""", """            let skip = shifted.trailing_zeros() as u8;
            shifted >>= skip;
            debug_assert!(shifted & 1 == 1);
            bit = bit.checked_add(skip)?;
""")]),
 ("r13-cross-signed", "ref", [(T, """        if (pool.current_tick_index >= self.index) ^ self.sign {
            pool.liquidity = pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;
        } else {
            pool.liquidity = pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)?;
        }

        Ok(())""", """        let upwards = pool.current_tick_index < self.index;
        let next = match (upwards, self.sign) {
            (true, true) | (false, false) => pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow),
            (true, false) | (false, true) => pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow),
        };
        next.map(|liquidity| pool.liquidity = liquidity)""")]),
 ("r13-check-approve-shared", "ref", [(K, """    // any non-expired token approval can send
    if pos
        .approvals
        .iter()
        .any(|apr| apr.spender == info.sender && !apr.expires.is_expired(&env.block))
    {
        return Ok(());
    }

    // operator can send
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
}
""", """    // any non-expired token approval can send, else whoever may approve
    let live = |apr: &&Approval| !apr.expires.is_expired(&env.block);
    let approved = pos.approvals.iter().filter(live).map(|apr| &apr.spender).any(|s| s == &info.sender);
    if approved {
        Ok(())
    } else {
        check_can_approve(deps, env, info, owner_raw)
    }
}
""")]),
 ("r13-token-id-split", "ref", [(K, """    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    let account_id""", """    let (owner_raw, index_raw) = token_id.split_at(token_id.len() - 4);
    let mut raw = [0u8; 4];
    raw.copy_from_slice(index_raw);
    let index = u32::from_be_bytes(raw);
    let account_id""")]),
 ("r13-token-id-struct", "ref", [(K, """    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    let account_id = Addr::unchecked(String::from_utf8(owner_raw.to_vec())?);
""", """    struct TokenId<'a> {
        owner: &'a [u8],
        index: u32,
    }
    impl<'a> From<&'a [u8]> for TokenId<'a> {
        fn from(raw: &'a [u8]) -> Self {
            let at = raw.len() - 4;
            TokenId {
                owner: &raw[..at],
                index: u32::from_be_bytes([raw[at], raw[at + 1], raw[at + 2], raw[at + 3]]),
            }
        }
    }
    let TokenId { owner: owner_raw, index } = TokenId::from(token_id);
    let account_id = Addr::unchecked(std::str::from_utf8(owner_raw).map(str::to_owned).map_err(|_| ContractError::PositionNotFound)?);
""")]),
 ("r13-poolkey-swap", "ref", [(PK, """        if token_0 < token_1 {
            Ok(Self {
                token_x: token_0.to_string(),
                token_y: token_1.to_string(),
                fee_tier,
            })
        } else {
            Ok(Self {
                token_x: token_1.to_string(),
                token_y: token_0.to_string(),
                fee_tier,
            })
        }
""", """        let (mut token_x, mut token_y) = (token_0, token_1);
        if token_y < token_x {
            std::mem::swap(&mut token_x, &mut token_y);
        }
        Ok(Self { token_x, token_y, fee_tier })
""")]),
]
