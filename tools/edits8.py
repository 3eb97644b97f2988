E = "entrypoints/execute.rs"
C = "entrypoints/common.rs"
P = "storage/pool.rs"
O = "storage/position.rs"
T = "storage/tick.rs"
I = "interface.rs"
PAYOUT = """
fn payout(
    api: &dyn cosmwasm_std::Api,
    info: &MessageInfo,
    pool_key: &PoolKey,
    x: TokenAmount,
    y: TokenAmount,
) -> Result<Vec<cosmwasm_std::CosmosMsg>, ContractError> {
    let mut msgs = vec![];
    for (denom, amount) in [(&pool_key.token_x, x), (&pool_key.token_y, y)] {
        Asset {
            info: AssetInfo::from_denom(api, denom.as_str()),
            amount: amount.into(),
        }
        .transfer(&mut msgs, info)?;
    }
    Ok(msgs)
}
"""
MINT_AT = "pub fn handle_mint("
EDITS = [
 ("r8-admin-helper", "ref", [
   (E, """    let mut config = CONFIG.load(deps.storage)?;

    if info.sender != config.admin {
        return Err(ContractError::Unauthorized {});
    }

    config.admin = new_admin.clone();""", """    let mut config = CONFIG.load(deps.storage)?;
    ensure_admin(&config, &info)?;

    config.admin = new_admin.clone();"""),
   (E, """    let mut config = CONFIG.load(deps.storage)?;

    if info.sender != config.admin {
        return Err(ContractError::Unauthorized {});
    }

    config.protocol_fee = protocol_fee;""", """    let mut config = CONFIG.load(deps.storage)?;
    ensure_admin(&config, &info)?;

    config.protocol_fee = protocol_fee;"""),
   (E, MINT_AT, """fn ensure_admin(config: &crate::Config, info: &MessageInfo) -> Result<(), ContractError> {
    match config.admin == info.sender {
        true => Ok(()),
        false => Err(ContractError::Unauthorized {}),
    }
}

pub fn handle_mint("""),
 ]),
 ("r8-admin-update", "ref", [
   (E, """    let mut config = CONFIG.load(deps.storage)?;

    if info.sender != config.admin {
        return Err(ContractError::Unauthorized {});
    }

    config.protocol_fee = protocol_fee;
    CONFIG.save(deps.storage, &config)?;
""", """    CONFIG.update(deps.storage, |mut config| {
        if info.sender != config.admin {
            return Err(ContractError::Unauthorized {});
        }
        config.protocol_fee = protocol_fee;
        Ok(config)
    })?;
""")]),
 ("r8-admin-struct", "ref", [
   (E, """    let mut config = CONFIG.load(deps.storage)?;

    if info.sender != config.admin {
        return Err(ContractError::Unauthorized {});
    }

    config.admin = new_admin.clone();
    CONFIG.save(deps.storage, &config)?;
""", """    let config = CONFIG.load(deps.storage)?;

    if !config.admin.eq(&info.sender) {
        return Err(ContractError::Unauthorized {});
    }

    CONFIG.save(
        deps.storage,
        &crate::Config {
            admin: new_admin.clone(),
            ..config
        },
    )?;
""")]),
 ("r8-receiver-update", "ref", [
   (E, """    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
    pool.fee_receiver = fee_receiver.to_string();
    POOLS.save(deps.storage, &pool_key_db, &pool)?;
""", """    POOLS.update(deps.storage, &pool_key_db, |pool| -> Result<_, ContractError> {
        let mut pool = pool.ok_or(ContractError::PoolNotFound {})?;
        pool.fee_receiver = fee_receiver.into_string();
        Ok(pool)
    })?;
""")]),
 ("r8-receiver-order", "ref", [
   (E, """    let config = CONFIG.load(deps.storage)?;

    if info.sender != config.admin {
        return Err(ContractError::Unauthorized {});
    }

    let pool_key_db = pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
    pool.fee_receiver""", """    let pool_key_db = pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
    let admin = CONFIG.load(deps.storage)?.admin;
    if admin.as_str() != info.sender.as_str() {
        return Err(ContractError::Unauthorized {});
    }
    pool.fee_receiver""")]),
 ("r8-payout-helper", "ref", [
   (E, """    let asset_0 = Asset {
        info: AssetInfo::from_denom(deps.api, pool_key.token_x.as_str()),
        amount: fee_protocol_token_x.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(deps.api, pool_key.token_y.as_str()),
        amount: fee_protocol_token_y.into(),
    };

    let mut msgs = vec![];
    asset_0.transfer(&mut msgs, &info)?;
    asset_1.transfer(&mut msgs, &info)?;
""", """    let msgs = payout(
        deps.api,
        &info,
        &pool_key,
        fee_protocol_token_x,
        fee_protocol_token_y,
    )?;
"""),
   (E, """    let asset_0 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_x.as_str()),
        amount: x.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_y.as_str()),
        amount: y.into(),
    };

    let mut msgs = vec![];
    asset_0.transfer(&mut msgs, &info)?;
    asset_1.transfer(&mut msgs, &info)?;
""", """    let msgs = payout(deps.api, &info, &position.pool_key, x, y)?;
"""),
   (E, """    let asset_0 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_x.as_str()),
        amount: amount_x.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_y.as_str()),
        amount: amount_y.into(),
    };

    let mut msgs = vec![];
    asset_0.transfer(&mut msgs, &info)?;
    asset_1.transfer(&mut msgs, &info)?;
""", """    let msgs = payout(deps.api, &info, &position.pool_key, amount_x, amount_y)?;
"""),
   (E, MINT_AT, PAYOUT + "\n" + MINT_AT)]),
 ("r8-asset-ctor", "ref", [
   (I, "impl Asset {\n", """impl Asset {
    pub fn of(api: &dyn Api, denom: &str, amount: TokenAmount) -> Self {
        Self {
            info: AssetInfo::from_denom(api, denom),
            amount: amount.into(),
        }
    }

"""),
   (E, """    let asset_0 = Asset {
        info: AssetInfo::from_denom(deps.api, pool_key.token_x.as_str()),
        amount: x.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(deps.api, pool_key.token_y.as_str()),
        amount: y.into(),
    };
""", """    let asset_0 = Asset::of(deps.api, &pool_key.token_x, x);
    let asset_1 = Asset::of(deps.api, &pool_key.token_y, y);
"""),
   (C, """    let asset_0 = Asset {
        info: AssetInfo::from_denom(api, token_0.as_str()),
        amount: calculate_swap_result.amount_in.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(api, token_1.as_str()),
        amount: calculate_swap_result.amount_out.into(),
    };
""", """    let asset_0 = Asset::of(api, token_0, calculate_swap_result.amount_in);
    let asset_1 = Asset::of(api, token_1, calculate_swap_result.amount_out);
""")]),
 ("r8-getorcreate", "ref", [
   (E, """    let mut lower_tick = match state::get_tick(deps.storage, &pool_key, lower_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, lower_tick)?,
    };

    let mut upper_tick = match state::get_tick(deps.storage, &pool_key, upper_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, upper_tick)?,
    };
""", """    let mut lower_tick =
        load_or_create_tick(deps.storage, &pool_key, lower_tick, current_timestamp)?;
    let mut upper_tick =
        load_or_create_tick(deps.storage, &pool_key, upper_tick, current_timestamp)?;
"""),
   (E, MINT_AT, """fn load_or_create_tick(
    store: &mut dyn cosmwasm_std::Storage,
    pool_key: &PoolKey,
    index: i32,
    now: u64,
) -> Result<crate::Tick, ContractError> {
    if let Ok(tick) = state::get_tick(store, pool_key, index) {
        return Ok(tick);
    }
    create_tick(store, now, pool_key, index)
}

pub fn handle_mint(""")]),
 ("r8-getorelse", "ref", [
   (E, """    let mut lower_tick = match state::get_tick(deps.storage, &pool_key, lower_tick) {
        Ok(tick) => tick,
        _ => create_tick(deps.storage, current_timestamp, &pool_key, lower_tick)?,
    };
""", """    let mut lower_tick = state::get_tick(deps.storage, &pool_key, lower_tick).or_else(|_| {
        create_tick(deps.storage, current_timestamp, &pool_key, lower_tick)
    })?;
""")]),
 ("r8-create-check-first", "ref", [
   (E, """    let (position, x, y) = Position::create(
        &mut pool,""", """    if pool.sqrt_price < slippage_limit_lower || slippage_limit_upper < pool.sqrt_price {
        return Err(ContractError::PriceLimitReached);
    }

    let (position, x, y) = Position::create(
        &mut pool,""")]),
 ("r8-create-order", "ref", [
   (E, """    POOLS.save(deps.storage, &pool_key_db, &pool)?;

    state::add_position(deps.storage, &info.sender, &position)?;

    state::update_tick(deps.storage, &pool_key, lower_tick.index, &lower_tick)?;
    state::update_tick(deps.storage, &pool_key, upper_tick.index, &upper_tick)?;
""", """    for tick in [&upper_tick, &lower_tick] {
        state::update_tick(deps.storage, &pool_key, tick.index, tick)?;
    }
    state::add_position(deps.storage, &info.sender, &position)?;
    POOLS.save(deps.storage, &pool_key_db, &pool)?;
""")]),
 ("r8-remove-tick-helper", "ref", [
   (E, """    if deinitialize_lower_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &lower_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.lower_tick_index,
            &lower_tick,
        )?;
    }

    if deinitialize_upper_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &upper_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.upper_tick_index,
            &upper_tick,
        )?;
    }
""", """    for (tick, empty) in [
        (&lower_tick, deinitialize_lower_tick),
        (&upper_tick, deinitialize_upper_tick),
    ] {
        if empty {
            remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, tick)?;
        } else {
            state::update_tick(deps.storage, &position.pool_key, tick.index, tick)?;
        }
    }
""")]),
 ("r8-remove-first", "ref", [
   (E, """    let position = state::remove_position(deps.storage, &info.sender, index)?;

    let asset_0""", """    let asset_0"""),
   (E, """    POOLS.save(deps.storage, &pool_key_db, &pool)?;

    if deinitialize_lower_tick {""", """    state::remove_position(deps.storage, &info.sender, index)?;
    POOLS.save(deps.storage, &pool_key_db, &pool)?;

    if deinitialize_lower_tick {""")]),
 ("r8-position-ticks-helper", "ref", [
   (E, """    let mut lower_tick =
        state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)?;
    let mut upper_tick =
        state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)?;
    let pool_key_db = position.pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
""", """    let (mut lower_tick, mut upper_tick) = position_ticks(deps.storage, &position)?;
    let pool_key_db = position.pool_key.key();
    let mut pool = state::get_pool(deps.storage, &position.pool_key)?;
"""),
   (E, """    let mut lower_tick =
        state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)?;
    let mut upper_tick =
        state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)?;

    let pool_key_db""", """    let (mut lower_tick, mut upper_tick) = position_ticks(deps.storage, &position)?;

    let pool_key_db"""),
   (E, MINT_AT, """fn position_ticks(
    store: &dyn cosmwasm_std::Storage,
    position: &Position,
) -> Result<(crate::Tick, crate::Tick), ContractError> {
    let tick_at = |index| state::get_tick(store, &position.pool_key, index);
    Ok((
        tick_at(position.lower_tick_index)?,
        tick_at(position.upper_tick_index)?,
    ))
}

pub fn handle_mint(""")]),
 ("r8-transferpos-order", "ref", [
   (E, """    let caller = info.sender;

    let mut position = state::get_position(deps.storage, &caller, index)?;

    state::remove_position(deps.storage, &caller, index)?;

    let receiver_addr = deps.api.addr_validate(&receiver)?;
    // reset approvals
    position.approvals = vec![];
    state::add_position(deps.storage, &receiver_addr, &position)?;
""", """    let receiver_addr = deps.api.addr_validate(&receiver)?;
    let removed = state::remove_position(deps.storage, &info.sender, index)?;
    let position = Position {
        approvals: Vec::new(),
        ..removed
    };
    state::add_position(deps.storage, &receiver_addr, &position)?;
""")]),
 ("r8-transferpos-clear", "ref", [
   (E, """    // reset approvals
    position.approvals = vec![];
    state::add_position(deps.storage, &receiver_addr, &position)?;
""", """    position.approvals.clear();
    state::add_position(deps.storage, &receiver_addr, &position)?;
""")]),
 ("r8-nft-take", "ref", [
   (C, """    pos.approvals = vec![];
    state::add_position(deps.storage, recipient, &pos)?;
    Ok(())""", """    let _ = std::mem::take(&mut pos.approvals);
    state::add_position(deps.storage, recipient, &pos)""")]),
 ("r8-tokenid-helper", "ref", [
   (C, """    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    let account_id = Addr::unchecked(String::from_utf8(owner_raw.to_vec())?);
""", """    let (owner_raw, index) = split_token_id(token_id);
    let account_id = Addr::unchecked(String::from_utf8(owner_raw.to_vec())?);
"""),
   (C, "pub fn transfer_nft(", """pub fn split_token_id(token_id: &[u8]) -> (&[u8], u32) {
    let (owner_raw, index_raw) = token_id.split_at(token_id.len() - 4);
    (owner_raw, u32::from_be_bytes(index_raw.try_into().unwrap()))
}

pub fn transfer_nft("""),
   (E, """    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    check_can_send""", """    let (owner_raw, index) = super::split_token_id(&token_id);
    check_can_send""")]),
 ("r8-approve-retain", "ref", [
   (C, """    pos.approvals = pos
        .approvals
        .into_iter()
        .filter(|apr| apr.spender != spender)
        .collect();
""", """    pos.approvals.retain(|apr| apr.spender != spender);
""")]),
 ("r8-approve-early", "ref", [
   (C, """    // only difference between approve and revoke
    if add {
        // reject expired data as invalid
        let expires = expires.unwrap_or_default();
        if expires.is_expired(&env.block) {
            return Err(ContractError::Expired {});
        }
        let approval = Approval {
            spender: spender.clone(),
            expires,
        };
        pos.approvals.push(approval);
    }
""", """    let expires = expires.unwrap_or(Expiration::Never {});
    if add && expires.is_expired(&env.block) {
        return Err(ContractError::Expired {});
    }
    if add {
        let spender = spender.to_owned();
        pos.approvals.push(Approval { spender, expires });
    }
""")]),
 ("r8-cansend-helper", "ref", [
   (C, """    // operator can send
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
""", """    // operator can send
    check_operator(deps, env, owner_raw, sender_raw)
"""),
   (C, """    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
""", """    check_operator(deps, env, owner_raw, sender_raw)
"""),
   (C, "pub fn update_approvals(", """fn check_operator(
    deps: Deps,
    env: &Env,
    owner_raw: &[u8],
    sender_raw: &[u8],
) -> Result<(), ContractError> {
    state::OPERATORS
        .may_load(deps.storage, (owner_raw, sender_raw))?
        .filter(|ex| !ex.is_expired(&env.block))
        .map(|_| ())
        .ok_or(ContractError::Unauthorized {})
}

pub fn update_approvals(""")]),
 ("r8-cansend-delegate", "ref", [
   (C, """    // owner can send
    let sender_raw = info.sender.as_bytes();

    if sender_raw.eq(owner_raw) {
        return Ok(());
    }

    // any non-expired token approval can send
    if pos
        .approvals
        .iter()
        .any(|apr| apr.spender == info.sender && !apr.expires.is_expired(&env.block))
    {
        return Ok(());
    }

    // operator can send
    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
""", """    let approved = humanize_approvals(&env.block, pos, false)
        .iter()
        .any(|apr| apr.spender == info.sender);
    if approved {
        return Ok(());
    }
    // owner and operators can send whatever they can approve
    check_can_approve(deps, env, info, owner_raw)
""")]),
 ("r8-approveall-match", "ref", [
   (E, """    let expires = expires.unwrap_or_default();
    if expires.is_expired(&env.block) {
        return Err(ContractError::Expired {});
    }

    // set""", """    let expires = match expires {
        Some(at) if at.is_expired(&env.block) => return Err(ContractError::Expired {}),
        Some(at) => at,
        None => Expiration::default(),
    };

    // set""")]),
 ("r8-tier-iter", "ref", [
   (E, """    if let Some(pos) = config.fee_tiers.iter().position(|x| *x == fee_tier) {
        config.fee_tiers.remove(pos);
    } else {
        return Err(ContractError::FeeTierNotFound);
    }
""", """    let pos = config
        .fee_tiers
        .iter()
        .position(|tier| tier == &fee_tier)
        .ok_or(ContractError::FeeTierNotFound)?;
    config.fee_tiers.remove(pos);
""")]),
 ("r8-tier-order", "ref", [
   (E, """    if fee_tier.tick_spacing == 0 || fee_tier.tick_spacing > 100 {
        return Err(ContractError::InvalidTickSpacing);
    }

    if fee_tier.fee >= Percentage::new(1000000000000) {
        // 100% -> fee invalid
        return Err(ContractError::InvalidFee);
    }

    if config.fee_tiers.contains(&fee_tier) {
        return Err(ContractError::FeeTierAlreadyExist);
    }

    config.fee_tiers.push(fee_tier);
""", """    if config.fee_tiers.contains(&fee_tier) {
        return Err(ContractError::FeeTierAlreadyExist);
    }
    validate_fee_tier(&fee_tier)?;
    config.fee_tiers.extend([fee_tier]);
"""),
   (E, MINT_AT, """fn validate_fee_tier(fee_tier: &FeeTier) -> Result<(), ContractError> {
    match fee_tier.tick_spacing {
        1..=100 => {}
        _ => return Err(ContractError::InvalidTickSpacing),
    }
    if fee_tier.fee < Percentage(1_000_000_000_000) {
        Ok(())
    } else {
        Err(ContractError::InvalidFee)
    }
}

pub fn handle_mint(""")]),
 ("r8-pool-create-one", "ref", [
   (E, """    let config = CONFIG.load(deps.storage)?;

    let pool = Pool::create(
        init_sqrt_price,
        init_tick,
        current_timestamp,
        fee_tier.tick_spacing,
        config.admin,
    )
    .map_err(|_| ContractError::CreatePoolError)?;

    POOLS.save(deps.storage, &db_key, &pool)?;
""", """    match Pool::create(
        init_sqrt_price,
        init_tick,
        current_timestamp,
        fee_tier.tick_spacing,
        config.admin,
    ) {
        Ok(pool) => POOLS.save(deps.storage, &db_key, &pool)?,
        Err(_) => return Err(ContractError::CreatePoolError),
    }
"""),]),
 ("r8-pool-mayload", "ref", [
   (E, """    if POOLS.has(deps.storage, &db_key) {
        return Err(ContractError::PoolAlreadyExist);
    }
""", """    if POOLS.may_load(deps.storage, &db_key)?.is_some() {
        return Err(ContractError::PoolAlreadyExist);
    }
""")]),
 ("r8-pool-new", "ref", [
   (P, """        Ok(Self {
            sqrt_price: init_sqrt_price,
            current_tick_index: init_tick,
            start_timestamp: current_timestamp,
            last_timestamp: current_timestamp,
            fee_receiver: fee_receiver.to_string(),
            ..Self::default()
        })""", """        let mut pool = Self::default();
        pool.sqrt_price = init_sqrt_price;
        pool.current_tick_index = init_tick;
        pool.start_timestamp = current_timestamp;
        pool.last_timestamp = pool.start_timestamp;
        pool.fee_receiver = fee_receiver.into_string();
        Ok(pool)""")]),
 ("r8-addfee-borrow", "ref", [
   (P, """        if in_x {
            self.fee_growth_global_x = self.fee_growth_global_x.unchecked_add(fee_growth);
            self.fee_protocol_token_x += protocol_fee;
        } else {
            self.fee_growth_global_y = self.fee_growth_global_y.unchecked_add(fee_growth);
            self.fee_protocol_token_y += protocol_fee;
        }
        Ok(())""", """        let (growth, protocol) = if in_x {
            (&mut self.fee_growth_global_x, &mut self.fee_protocol_token_x)
        } else {
            (&mut self.fee_growth_global_y, &mut self.fee_protocol_token_y)
        };
        *growth = growth.unchecked_add(fee_growth);
        *protocol += protocol_fee;
        Ok(())""")]),
 ("r8-addfee-zero", "ref", [
   (P, """        if (pool_fee.is_zero() && protocol_fee.is_zero()) || self.liquidity.is_zero() {
            return Ok(());
        }
""", """        if amount.is_zero() || self.liquidity.is_zero() {
            return Ok(());
        }
""")]),
 ("r8-updliq-tern", "ref", [
   (P, """        if update_liquidity {
            if liquidity_sign {
                self.liquidity = self
                    .liquidity
                    .checked_add(liquidity_delta)
                    .map_err(|_| ContractError::UpdateLiquidityPlusOverflow)?;
            } else {
                self.liquidity = self
                    .liquidity
                    .checked_sub(liquidity_delta)
                    .map_err(|_| ContractError::UpdateLiquidityMinusOverflow)?;
            }
        }
""", """        self.liquidity = match (update_liquidity, liquidity_sign) {
            (false, _) => self.liquidity,
            (true, true) => self
                .liquidity
                .checked_add(liquidity_delta)
                .map_err(|_| ContractError::UpdateLiquidityPlusOverflow)?,
            (true, false) => self
                .liquidity
                .checked_sub(liquidity_delta)
                .map_err(|_| ContractError::UpdateLiquidityMinusOverflow)?,
        };
""")]),
 ("r8-updtick-match", "ref", [
   (P, """        let tick_index = match tick {
            UpdatePoolTick::TickInitialized(tick) => {
                if !x_to_y || is_enough_amount_to_cross {
                    tick.cross(self, current_timestamp).unwrap();
                    has_crossed = true;
                } else if !remaining_amount.is_zero() {
                    if by_amount_in {
                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;
                        total_amount = remaining_amount;
                    }
                    remaining_amount = TokenAmount(0);
                }

                tick.index
            }
            UpdatePoolTick::TickUninitialized(index) => *index,
            _ => unreachable!(),
        };

        self.current_tick_index = if x_to_y && is_enough_amount_to_cross {
            tick_index - fee_tier.tick_spacing as i32
        } else {
            tick_index
        };

        Ok((total_amount, remaining_amount, has_crossed))""", """        let mut tick_index = match tick {
            UpdatePoolTick::TickInitialized(tick) => {
                has_crossed = !(x_to_y && !is_enough_amount_to_cross);
                if has_crossed {
                    tick.cross(self, current_timestamp).unwrap();
                } else {
                    if by_amount_in && !remaining_amount.is_zero() {
                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;
                        total_amount = remaining_amount;
                    }
                    remaining_amount = TokenAmount(0);
                }
                tick.index
            }
            UpdatePoolTick::TickUninitialized(index) => *index,
            UpdatePoolTick::NoTick => unreachable!(),
        };

        if x_to_y && is_enough_amount_to_cross {
            tick_index -= i32::from(fee_tier.tick_spacing);
        }
        self.current_tick_index = tick_index;

        Ok((total_amount, remaining_amount, has_crossed))""")]),
 ("r8-updtick-first", "ref", [
   (P, """        if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
            self.current_tick_index =
                get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;

            return Ok((total_amount, remaining_amount, has_crossed));
        };
""", """        let stopped_between_ticks = matches!(tick, UpdatePoolTick::NoTick)
            || result.next_sqrt_price.ne(&swap_limit);
        if stopped_between_ticks {
            let index = get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
            self.current_tick_index = index;
            return Ok((TokenAmount::new(0), remaining_amount, false));
        }
""")]),
 ("r8-withdraw-replace", "ref", [
   (P, """        let fee_protocol_token_x = self.fee_protocol_token_x;
        let fee_protocol_token_y = self.fee_protocol_token_y;

        self.fee_protocol_token_x = TokenAmount(0);
        self.fee_protocol_token_y = TokenAmount(0);

        (fee_protocol_token_x, fee_protocol_token_y)""", """        (
            std::mem::take(&mut self.fee_protocol_token_x),
            std::mem::replace(&mut self.fee_protocol_token_y, TokenAmount::new(0)),
        )""")]),
 ("r8-pos-update-helper", "ref", [
   (O, """        let tokens_owed_x = fee_growth_inside_x
            .unchecked_sub(self.fee_growth_inside_x)
            .to_fee(self.liquidity)?;
        let tokens_owed_y = fee_growth_inside_y
            .unchecked_sub(self.fee_growth_inside_y)
            .to_fee(self.liquidity)?;

        self.liquidity = self.calculate_new_liquidity(sign, liquidity_delta)?;
        self.fee_growth_inside_x = fee_growth_inside_x;
        self.fee_growth_inside_y = fee_growth_inside_y;

        self.tokens_owed_x += tokens_owed_x;
        self.tokens_owed_y += tokens_owed_y;
        Ok(())""", """        let liquidity = self.liquidity;
        let earned = |now: FeeGrowth, before: FeeGrowth| now.unchecked_sub(before).to_fee(liquidity);

        self.tokens_owed_x += earned(fee_growth_inside_x, self.fee_growth_inside_x)?;
        self.tokens_owed_y += earned(fee_growth_inside_y, self.fee_growth_inside_y)?;
        self.fee_growth_inside_x = fee_growth_inside_x;
        self.fee_growth_inside_y = fee_growth_inside_y;
        self.liquidity = self.calculate_new_liquidity(sign, liquidity_delta)?;
        Ok(())""")]),
 ("r8-pos-newliq", "ref", [
   (O, """        // validate in decrease liquidity case
        if !sign && { self.liquidity } < liquidity_delta {
            return Err(ContractError::InsufficientLiquidity);
        }

        match sign {
            true => self
                .liquidity
                .checked_add(liquidity_delta)
                .map_err(|_| ContractError::PositionAddLiquidityOverflow),
            false => self
                .liquidity
                .checked_sub(liquidity_delta)
                .map_err(|_| ContractError::PositionRemoveLiquidityUnderflow),
        }""", """        if sign {
            return self
                .liquidity
                .checked_add(liquidity_delta)
                .map_err(|_| ContractError::PositionAddLiquidityOverflow);
        }
        if self.liquidity >= liquidity_delta {
            Ok(self.liquidity - liquidity_delta)
        } else {
            Err(ContractError::InsufficientLiquidity)
        }""")]),
 ("r8-pos-modify-order", "ref", [
   (O, """        pool.last_timestamp = current_timestamp;

        // calculate dynamically limit allows easy modification
        let max_liquidity_per_tick = calculate_max_liquidity_per_tick(tick_spacing);

        // update initialized tick
        lower_tick.update(liquidity_delta, max_liquidity_per_tick, false, add)?;

        upper_tick.update(liquidity_delta, max_liquidity_per_tick, true, add)?;
""", """        // calculate dynamically limit allows easy modification
        let max_liquidity_per_tick = calculate_max_liquidity_per_tick(tick_spacing);
"""),
   (O, """        // calculate tokens amounts and update pool liquidity
        pool.update_liquidity(liquidity_delta, add, upper_tick.index, lower_tick.index)""", """        // update initialized ticks
        for (tick, is_upper) in [(&mut *lower_tick, false), (&mut *upper_tick, true)] {
            tick.update(liquidity_delta, max_liquidity_per_tick, is_upper, add)?;
        }

        // calculate tokens amounts and update pool liquidity
        pool.last_timestamp = current_timestamp;
        pool.update_liquidity(liquidity_delta, add, upper_tick.index, lower_tick.index)""")]),
 ("r8-pos-create-default", "ref", [
   (O, """            pool_key,
            liquidity: Liquidity::new(0),
            lower_tick_index: lower_tick.index,
            upper_tick_index: upper_tick.index,
            fee_growth_inside_x: FeeGrowth::new(0),
            fee_growth_inside_y: FeeGrowth::new(0),
            last_block_number: block_number,
            tokens_owed_x: TokenAmount::new(0),
            tokens_owed_y: TokenAmount::new(0),
            approvals: vec![],
        };""", """            pool_key,
            lower_tick_index: lower_tick.index,
            upper_tick_index: upper_tick.index,
            last_block_number: block_number,
            ..Default::default()
        };""")]),
 ("r8-pos-claim-take", "ref", [
   (O, """        let tokens_owed_x = self.tokens_owed_x;
        let tokens_owed_y = self.tokens_owed_y;

        self.tokens_owed_x = TokenAmount(0);
        self.tokens_owed_y = TokenAmount(0);

        Ok((tokens_owed_x, tokens_owed_y))""", """        let owed = (self.tokens_owed_x, self.tokens_owed_y);
        (self.tokens_owed_x, self.tokens_owed_y) = Default::default();
        Ok(owed)""")]),
 ("r8-pos-remove", "ref", [
   (O, """        let (mut amount_x, mut amount_y) = self.modify(""", """        let (amount_x, amount_y) = self.modify("""),
   (O, """        amount_x += self.tokens_owed_x;
        amount_y += self.tokens_owed_y;

        let deinitialize_lower_tick = lower_tick.liquidity_gross.is_zero();
        let deinitialize_upper_tick = upper_tick.liquidity_gross.is_zero();

        Ok((
            amount_x,
            amount_y,
            deinitialize_lower_tick,
            deinitialize_upper_tick,
        ))""", """        Ok((
            amount_x + self.tokens_owed_x,
            self.tokens_owed_y + amount_y,
            lower_tick.liquidity_gross == Liquidity::new(0),
            upper_tick.liquidity_gross == Liquidity::new(0),
        ))""")]),
 ("r8-tick-create-tuple", "ref", [
   (T, """        let below_current_tick = index <= pool.current_tick_index;

        Self {
            index,
            sign: true,
            sqrt_price: calculate_sqrt_price(index).unwrap(),
            fee_growth_outside_x: match below_current_tick {
                true => pool.fee_growth_global_x,
                false => FeeGrowth::new(0),
            },
            fee_growth_outside_y: match below_current_tick {
                true => pool.fee_growth_global_y,
                false => FeeGrowth::new(0),
            },
            seconds_outside: match below_current_tick {
                true => current_timestamp - pool.start_timestamp,
                false => 0,
            },
            ..Self::default()
        }""", """        let (fee_growth_outside_x, fee_growth_outside_y, seconds_outside) =
            if pool.current_tick_index >= index {
                (
                    pool.fee_growth_global_x,
                    pool.fee_growth_global_y,
                    current_timestamp - pool.start_timestamp,
                )
            } else {
                Default::default()
            };

        Self {
            index,
            sign: true,
            liquidity_change: Liquidity::new(0),
            liquidity_gross: Liquidity::new(0),
            sqrt_price: calculate_sqrt_price(index).unwrap(),
            fee_growth_outside_x,
            fee_growth_outside_y,
            seconds_outside,
        }""")]),
 ("r8-tick-change", "ref", [
   (T, """        if self.sign ^ add {
            if { self.liquidity_change } > liquidity_delta {
                self.liquidity_change -= liquidity_delta;
            } else {
                self.liquidity_change = liquidity_delta - self.liquidity_change;
                self.sign = !self.sign;
            }
        } else {
            self.liquidity_change += liquidity_delta;
        }""", """        if self.sign == add {
            self.liquidity_change += liquidity_delta;
            return;
        }
        if liquidity_delta >= self.liquidity_change {
            self.liquidity_change = liquidity_delta - self.liquidity_change;
            self.sign = add;
        } else {
            self.liquidity_change = self.liquidity_change - liquidity_delta;
        }""")]),
 ("r8-tick-gross", "ref", [
   (T, """        // validate in decrease liquidity case
        if !sign && self.liquidity_gross < liquidity_delta {
            return Err(ContractError::InvalidTickLiquidity);
        }
        let new_liquidity = match sign {
            true => self
                .liquidity_gross
                .checked_add(liquidity_delta)
                .map_err(|_| ContractError::TickAddLiquidityOverflow),
            false => self
                .liquidity_gross
                .checked_sub(liquidity_delta)
                .map_err(|_| ContractError::TickRemoveLiquidityUnderflow),
        }?;
        // validate in increase liquidity case
        if sign && new_liquidity >= max_liquidity_per_tick {
            return Err(ContractError::InvalidTickLiquidity);
        }

        Ok(new_liquidity)""", """        if !sign {
            return self
                .liquidity_gross
                .checked_sub(liquidity_delta)
                .map_err(|_| ContractError::InvalidTickLiquidity);
        }
        self.liquidity_gross
            .checked_add(liquidity_delta)
            .map_err(|_| ContractError::TickAddLiquidityOverflow)
            .and_then(|gross| {
                if gross < max_liquidity_per_tick {
                    Ok(gross)
                } else {
                    Err(ContractError::InvalidTickLiquidity)
                }
            })""")]),
 ("r8-tick-cross-add", "ref", [
   (T, """        if (pool.current_tick_index >= self.index) ^ self.sign {
            pool.liquidity = pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;
        } else {
            pool.liquidity = pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)?;
        }

        Ok(())""", """        let going_down = pool.current_tick_index >= self.index;
        let liquidity = pool.liquidity;
        pool.liquidity = if going_down != self.sign {
            liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)
        } else {
            liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)
        }?;

        Ok(())""")]),
 ("r8-transfer-early", "ref", [
   (I, """        if !self.amount.is_zero() {
            match &self.info {
                AssetInfo::Token { contract_addr } => {
                    msgs.push(
                        WasmMsg::Execute {
                            contract_addr: contract_addr.to_string(),
                            msg: to_binary(&Cw20ExecuteMsg::Transfer {
                                recipient: info.sender.to_string(),
                                amount: self.amount,
                            })?,
                            funds: vec![],
                        }
                        .into(),
                    );
                }
                AssetInfo::NativeToken { denom } => msgs.push(
                    BankMsg::Send {
                        to_address: info.sender.to_string(),
                        amount: vec![Coin {
                            amount: self.amount,
                            denom: denom.to_string(),
                        }],
                    }
                    .into(),
                ),
            }
        }
        Ok(())""", """        if self.amount.is_zero() {
            return Ok(());
        }
        let recipient = info.sender.to_string();
        let msg: CosmosMsg = match self.info.clone() {
            AssetInfo::Token { contract_addr } => WasmMsg::Execute {
                contract_addr: contract_addr.into_string(),
                msg: to_binary(&Cw20ExecuteMsg::Transfer {
                    recipient,
                    amount: self.amount,
                })?,
                funds: Vec::new(),
            }
            .into(),
            AssetInfo::NativeToken { denom } => CosmosMsg::Bank(BankMsg::Send {
                to_address: recipient,
                amount: cosmwasm_std::coins(self.amount.u128(), denom),
            }),
        };
        msgs.push(msg);
        Ok(())""")]),
 ("r8-from-refund", "ref", [
   (I, """                let attached = match info.funds.iter().find(|x| x.denom.eq(denom)) {
                    Some(coin) => coin.amount,
                    None => Uint128::zero(),
                };
                if attached < self.amount {
                    return Err(ContractError::InvalidFunds {
                        transfer_amount: self.amount,
                    });
                }
                // refund for user
                let refund_amount = attached - self.amount;
                if !refund_amount.is_zero() {""", """                let attached = info
                    .funds
                    .iter()
                    .find(|coin| &coin.denom == denom)
                    .map(|coin| coin.amount)
                    .unwrap_or_default();
                // refund for user
                let refund_amount =
                    attached
                        .checked_sub(self.amount)
                        .map_err(|_| ContractError::InvalidFunds {
                            transfer_amount: self.amount,
                        })?;
                if refund_amount > Uint128::zero() {""")]),
 ("r8-denom-match", "ref", [
   (I, """        if let Ok(contract_addr) = api.addr_validate(denom) {
            Self::Token { contract_addr }
        } else {
            Self::NativeToken {
                denom: denom.to_string(),
            }
        }""", """        api.addr_validate(denom)
            .map(|contract_addr| Self::Token { contract_addr })
            .unwrap_or_else(|_| Self::NativeToken {
                denom: denom.to_owned(),
            })""")]),
 ("r8-swap-limit-helper", "ref", [
   (C, """    if x_to_y {
        if pool.sqrt_price <= sqrt_price_limit || sqrt_price_limit > SqrtPrice::new(MAX_SQRT_PRICE)
        {
            return Err(ContractError::WrongLimit {});
        }
    } else if pool.sqrt_price >= sqrt_price_limit
        || sqrt_price_limit < SqrtPrice::new(MIN_SQRT_PRICE)
    {
        return Err(ContractError::WrongLimit {});
    }
""", """    let wrong_limit = match x_to_y {
        true => {
            sqrt_price_limit >= pool.sqrt_price
                || sqrt_price_limit > SqrtPrice::new(MAX_SQRT_PRICE)
        }
        false => {
            sqrt_price_limit <= pool.sqrt_price
                || sqrt_price_limit < SqrtPrice::new(MIN_SQRT_PRICE)
        }
    };
    if wrong_limit {
        return Err(ContractError::WrongLimit {});
    }
""")]),
 ("r8-swap-config-once", "ref", [
   (C, """    let mut remaining_amount = amount;

    let mut total""", """    let protocol_fee = CONFIG.load(store)?.protocol_fee;
    let mut remaining_amount = amount;

    let mut total"""),
   (C, "pool.add_fee(result.fee_amount, x_to_y, CONFIG.load(store)?.protocol_fee)?;", "pool.add_fee(result.fee_amount, x_to_y, protocol_fee)?;"),
   (C, "            CONFIG.load(store)?.protocol_fee,\n", "            protocol_fee,\n")]),
 ("r8-swap-spent", "ref", [
   (C, """        if by_amount_in {
            remaining_amount = remaining_amount
                .checked_sub(result.amount_in + result.fee_amount)
                .map_err(|_| ContractError::Sub)?;
        } else {
            remaining_amount = remaining_amount
                .checked_sub(result.amount_out)
                .map_err(|_| ContractError::Sub)?;
        }

        pool.add_fee(result.fee_amount, x_to_y, CONFIG.load(store)?.protocol_fee)?;
        event_fee_amount += result.fee_amount;

        pool.sqrt_price = result.next_sqrt_price;

        total_amount_in += result.amount_in + result.fee_amount;
        total_amount_out += result.amount_out;
""", """        let step_in = result.amount_in + result.fee_amount;
        let consumed = if by_amount_in { step_in } else { result.amount_out };

        total_amount_in += step_in;
        total_amount_out += result.amount_out;
        event_fee_amount += result.fee_amount;
        remaining_amount = remaining_amount
            .checked_sub(consumed)
            .map_err(|_| ContractError::Sub)?;

        pool.sqrt_price = result.next_sqrt_price;
        pool.add_fee(result.fee_amount, x_to_y, CONFIG.load(store)?.protocol_fee)?;
""")]),
 ("r8-swap-tickupd-match", "ref", [
   (C, """        let mut tick_update = {
            if let Some((tick_index, is_initialized)) = limiting_tick {
                if is_initialized {
                    let tick = state::get_tick(store, pool_key, tick_index)?;
                    UpdatePoolTick::TickInitialized(tick)
                } else {
                    UpdatePoolTick::TickUninitialized(tick_index)
                }
            } else {
                UpdatePoolTick::NoTick
            }
        };
""", """        let mut tick_update = match limiting_tick {
            None => UpdatePoolTick::NoTick,
            Some((tick_index, false)) => UpdatePoolTick::TickUninitialized(tick_index),
            Some((tick_index, true)) => {
                UpdatePoolTick::TickInitialized(state::get_tick(store, pool_key, tick_index)?)
            }
        };
"""),
   (C, """        if let UpdatePoolTick::TickInitialized(tick) = tick_update {
            if has_crossed {
                ticks.push(tick)
            }
        }
""", """        match tick_update {
            UpdatePoolTick::TickInitialized(tick) if has_crossed => ticks.push(tick),
            _ => {}
        }
""")]),
 ("r8-swap-step-struct", "ref", [
   (C, """    let mut total_amount_in = TokenAmount::new(0);
    let mut total_amount_out = TokenAmount::new(0);

    let event_start_sqrt_price = pool.sqrt_price;
    let mut event_fee_amount = TokenAmount::new(0);

    while !remaining_amount.is_zero() {""", """    let event_start_sqrt_price = pool.sqrt_price;
    let (mut total_amount_in, mut total_amount_out, mut event_fee_amount) =
        (TokenAmount(0), TokenAmount(0), TokenAmount(0));

    loop {
        if remaining_amount.is_zero() {
            break;
        }"""),
   (C, """        let reached_tick_limit = match x_to_y {
            true => pool.current_tick_index <= tick_limit,
            false => pool.current_tick_index >= tick_limit,
        };

        if reached_tick_limit {
            return Err(ContractError::TickLimitReached {});
        }
""", """        if (x_to_y && pool.current_tick_index <= tick_limit)
            || (!x_to_y && pool.current_tick_index >= tick_limit)
        {
            return Err(ContractError::TickLimitReached {});
        }
""")]),
 ("r8-route-try-fold", "ref", [
   (C, """    let mut next_swap_amount = amount_in;

    let current_timestamp = env.block.time.millis();

    for swap_hop in &swaps {
        let sqrt_price_limit = if swap_hop.x_to_y {
            SqrtPrice::new(MIN_SQRT_PRICE)
        } else {
            SqrtPrice::new(MAX_SQRT_PRICE)
        };

        next_swap_amount = calculate_swap(
            store,
            current_timestamp,
            &swap_hop.pool_key,
            swap_hop.x_to_y,
            next_swap_amount,
            true,
            sqrt_price_limit,
        )?
        .amount_out;
    }

    Ok(next_swap_amount)""", """    let current_timestamp = env.block.time.millis();

    swaps.iter().try_fold(amount_in, |amount, hop| {
        let limit = if hop.x_to_y {
            MIN_SQRT_PRICE
        } else {
            MAX_SQRT_PRICE
        };
        calculate_swap(
            store,
            current_timestamp,
            &hop.pool_key,
            hop.x_to_y,
            amount,
            true,
            SqrtPrice::new(limit),
        )
        .map(|result| result.amount_out)
    })""")]),
 ("r8-route-destructure", "ref", [
   (C, """        next_swap_amount = swap_internal(
            store,
            api,
            &info,
            msgs,
            &env.contract.address,
            current_timestamp,
            &swap_hop.pool_key,
            swap_hop.x_to_y,
            next_swap_amount,
            true,
            sqrt_price_limit,
        )?
        .amount_out;
""", """        let CalculateSwapResult { amount_out, .. } = swap_internal(
            store,
            api,
            &info,
            msgs,
            &env.contract.address,
            current_timestamp,
            &swap_hop.pool_key,
            swap_hop.x_to_y,
            next_swap_amount,
            true,
            sqrt_price_limit,
        )?;
        next_swap_amount = amount_out;
"""),
   (C, "    for swap_hop in &swaps {", "    for swap_hop in swaps.iter() {")]),
 ("r8-minout-first", "ref", [
   (E, """    let mut msgs = vec![];
    let amount_out = swap_route_internal(""", """    let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);
    let mut msgs = Vec::with_capacity(2 * swaps.len());
    let amount_out = swap_route_internal("""),
   (E, """    let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);

    if amount_out < min_amount_out {
        return Err(ContractError::AmountUnderMinimumAmountOut);
    }

    Ok(""", """    if !(amount_out >= min_amount_out) {
        return Err(ContractError::AmountUnderMinimumAmountOut);
    }

    Ok(""")]),
 ("r8-removetick-order", "ref", [
   (C, """    if !tick.liquidity_gross.is_zero() {
        return Err(ContractError::NotEmptyTickDeinitialization);
    }

    state::flip_bitmap(storage, false, tick.index, key.fee_tier.tick_spacing, key)?;

    state::remove_tick(storage, key, tick.index)?;

    Ok(())""", """    if tick.liquidity_gross > Liquidity::new(0) {
        return Err(ContractError::NotEmptyTickDeinitialization);
    }

    state::remove_tick(storage, key, tick.index)?;
    state::flip_bitmap(storage, false, tick.index, key.fee_tier.tick_spacing, key)"""),
   (C, "    sqrt_price::{get_max_tick", "    liquidity::Liquidity,\n    sqrt_price::{get_max_tick")]),
 ("r8-millis", "ref", [
   (C, "        self.nanos() / 1_000_000", "        self.seconds() * 1_000 + self.subsec_nanos() / 1_000_000")]),
 ("r8-burn-let", "ref", [
   (E, """    let pos = state::get_position_by_key(deps.storage, &token_id)?;
    let owner_raw = &token_id[..token_id.len() - 4];
    let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
    check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;

    // burn the position named by the token id on behalf of its owner, who gets the proceeds
    let info = MessageInfo {
        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
        ..info
    };
""", """    let split = token_id.len() - 4;
    let owner_raw = &token_id[..split];
    let mut raw_index = [0u8; 4];
    raw_index.copy_from_slice(&token_id[split..]);
    let index = u32::from_be_bytes(raw_index);

    let pos = state::get_position_by_key(deps.storage, &token_id)?;
    check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;

    let owner = Addr::unchecked(String::from_utf8(owner_raw.to_vec())?);
    let mut info = info;
    info.sender = owner;
""")]),
]
