S = "state.rs"
X = "entrypoints/execute.rs"
K = "entrypoints/common.rs"
Q = "entrypoints/query.rs"
I = "interface.rs"
P = "storage/pool.rs"
O = "storage/position.rs"
T = "storage/tick.rs"
C = "math/clamm.rs"
CT = "contract.rs"
PAY = """    let asset_0 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_x.as_str()),
        amount: amount_x.into(),
    };

    let asset_1 = Asset {
        info: AssetInfo::from_denom(deps.api, position.pool_key.token_y.as_str()),
        amount: amount_y.into(),
    };

    let mut msgs = vec![];
    asset_0.transfer(&mut msgs, &info)?;
    asset_1.transfer(&mut msgs, &info)?;
"""
EDITS = [
 # accumulators of the swap loop in one struct with methods
 ("r12-swap-acc", "ref", [(K, """    let mut remaining_amount = amount;

    let mut total_amount_in = TokenAmount::new(0);
    let mut total_amount_out = TokenAmount::new(0);

    let event_start_sqrt_price = pool.sqrt_price;
    let mut event_fee_amount = TokenAmount::new(0);
""", """    struct Totals {
        left: TokenAmount,
        paid: TokenAmount,
        got: TokenAmount,
        fee: TokenAmount,
    }
    impl Totals {
        fn spend(&mut self, by_amount_in: bool, r: &SwapResult) -> Result<(), ContractError> {
            let spent = if by_amount_in {
                r.amount_in + r.fee_amount
            } else {
                r.amount_out
            };
            self.left = self.left.checked_sub(spent).map_err(|_| ContractError::Sub)?;
            Ok(())
        }
        fn book(&mut self, r: &SwapResult) {
            self.fee += r.fee_amount;
            self.paid += r.amount_in + r.fee_amount;
            self.got += r.amount_out;
        }
    }
    let mut acc = Totals {
        left: amount,
        paid: TokenAmount::new(0),
        got: TokenAmount::new(0),
        fee: TokenAmount::new(0),
    };

    let event_start_sqrt_price = pool.sqrt_price;
"""), (K, "while !remaining_amount.is_zero() {", "while !acc.left.is_zero() {"), (K, """            pool.liquidity,
            remaining_amount,
            by_amount_in,
            pool_key.fee_tier.fee,""", """            pool.liquidity,
            acc.left,
            by_amount_in,
            pool_key.fee_tier.fee,"""), (K, """        if by_amount_in {
            remaining_amount = remaining_amount
                .checked_sub(result.amount_in + result.fee_amount)
                .map_err(|_| ContractError::Sub)?;
        } else {
            remaining_amount = remaining_amount
                .checked_sub(result.amount_out)
                .map_err(|_| ContractError::Sub)?;
        }
""", """        acc.spend(by_amount_in, &result)?;
"""), (K, """        event_fee_amount += result.fee_amount;

        pool.sqrt_price = result.next_sqrt_price;

        total_amount_in += result.amount_in + result.fee_amount;
        total_amount_out += result.amount_out;
""", """        acc.book(&result);
        pool.sqrt_price = result.next_sqrt_price;
"""), (K, "pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero()", "pool.sqrt_price == sqrt_price_limit && !acc.left.is_zero()"),
 (K, """            &mut tick_update,
            remaining_amount,""", """            &mut tick_update,
            acc.left,"""), (K, """        remaining_amount = amount_after_tick_update;
        total_amount_in += amount_to_add;""", """        acc.left = amount_after_tick_update;
        acc.paid += amount_to_add;"""), (K, "if total_amount_out.is_zero() {", "if acc.got.is_zero() {"),
 (K, """        amount_in: total_amount_in,
        amount_out: total_amount_out,""", """        amount_in: acc.paid,
        amount_out: acc.got,"""), (K, "        fee: event_fee_amount,", "        fee: acc.fee,"), (K, "use crate::{", "use crate::SwapResult;\nuse crate::{")]),
 # the loop body's step as a function on the pool
 ("r12-swap-body-fn", "ref", [(K, """        let mut tick_update = {
            if let Some((tick_index, is_initialized)) = limiting_tick {
                if is_initialized {
                    let tick = state::get_tick(store, pool_key, tick_index)?;
                    UpdatePoolTick::TickInitialized(tick)
                } else {
                    UpdatePoolTick::TickUninitialized(tick_index)
                }
            } else {
                UpdatePoolTick::NoTick
            }
        };
""", """        let mut tick_update = pending_tick(store, pool_key, limiting_tick)?;
"""), (K, """pub fn calculate_swap(""", """fn pending_tick(
    store: &dyn Storage,
    pool_key: &PoolKey,
    limiting_tick: Option<(i32, bool)>,
) -> Result<UpdatePoolTick, ContractError> {
    limiting_tick.map_or(Ok(UpdatePoolTick::NoTick), |(index, initialized)| {
        if initialized {
            state::get_tick(store, pool_key, index).map(UpdatePoolTick::TickInitialized)
        } else {
            Ok(UpdatePoolTick::TickUninitialized(index))
        }
    })
}

pub fn calculate_swap(""")]),
 ("r12-swap-checks-fn", "ref", [(K, """    if x_to_y {
        if pool.sqrt_price <= sqrt_price_limit || sqrt_price_limit > SqrtPrice::new(MAX_SQRT_PRICE)
        {
            return Err(ContractError::WrongLimit {});
        }
    } else if pool.sqrt_price >= sqrt_price_limit
        || sqrt_price_limit < SqrtPrice::new(MIN_SQRT_PRICE)
    {
        return Err(ContractError::WrongLimit {});
    }
""", """    validate_limit(&pool, x_to_y, sqrt_price_limit)?;
"""), (K, """pub fn calculate_swap(""", """fn validate_limit(pool: &Pool, x_to_y: bool, limit: SqrtPrice) -> Result<(), ContractError> {
    let ok = match x_to_y {
        true => limit < pool.sqrt_price && limit <= SqrtPrice::new(MAX_SQRT_PRICE),
        false => limit > pool.sqrt_price && limit >= SqrtPrice::new(MIN_SQRT_PRICE),
    };
    ok.then_some(()).ok_or(ContractError::WrongLimit {})
}

pub fn calculate_swap("""), (K, "use crate::{", "use crate::Pool;\nuse crate::{")]),
 ("r12-swap-limit-closure", "ref", [(K, """        let reached_tick_limit = match x_to_y {
            true => pool.current_tick_index <= tick_limit,
            false => pool.current_tick_index >= tick_limit,
        };

        if reached_tick_limit {
            return Err(ContractError::TickLimitReached {});
        }
""", """        let inside = |tick: i32| if x_to_y { tick > tick_limit } else { tick < tick_limit };
        if !inside(pool.current_tick_index) {
            return Err(ContractError::TickLimitReached {});
        }
""")]),
 ("r12-swap-fnptr", "ref", [(K, """    let tick_limit = if x_to_y {
        get_min_tick(pool_key.fee_tier.tick_spacing)
    } else {
        get_max_tick(pool_key.fee_tier.tick_spacing)
    };
""", """    let edge: fn(u16) -> i32 = if x_to_y { get_min_tick } else { get_max_tick };
    let tick_limit = edge(pool_key.fee_tier.tick_spacing);
""")]),
 ("r12-swap-result-match", "ref", [(K, """    let calculate_swap_result = calculate_swap(
        store,
        current_timestamp,
        pool_key,
        x_to_y,
        amount,
        by_amount_in,
        sqrt_price_limit,
    )?;

    for tick in &calculate_swap_result.ticks {
        state::update_tick(store, pool_key, tick.index, tick)?;
    }

    POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?;
""", """    let calculate_swap_result = match calculate_swap(
        store,
        current_timestamp,
        pool_key,
        x_to_y,
        amount,
        by_amount_in,
        sqrt_price_limit,
    ) {
        Ok(r) => r,
        Err(e) => return Err(e),
    };
    let CalculateSwapResult { pool, ticks, .. } = &calculate_swap_result;

    POOLS.save(store, &pool_key.key(), pool)?;
    ticks
        .iter()
        .try_for_each(|tick| state::update_tick(store, pool_key, tick.index, tick))?;
""")]),
 ("r12-load-ctx", "ref", [(X, """    let mut position = state::get_position(deps.storage, &info.sender, index)?;
    let withdrawed_liquidity = position.liquidity;

    let mut lower_tick =
        state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)?;
    let mut upper_tick =
        state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)?;

    let pool_key_db = position.pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;
""", """    let Loaded {
        mut position,
        mut lower_tick,
        mut upper_tick,
        pool_key_db,
        mut pool,
    } = Loaded::from_store(deps.storage, &info.sender, index)?;
    let withdrawed_liquidity = position.liquidity;
"""), (X, """    let mut position = state::get_position(deps.storage, &info.sender, index)?;

    let mut lower_tick =
        state::get_tick(deps.storage, &position.pool_key, position.lower_tick_index)?;
    let mut upper_tick =
        state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)?;
    let pool_key_db = position.pool_key.key();
    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;

    let (x, y) = position.claim_fee(""", """    let Loaded {
        mut position,
        mut lower_tick,
        mut upper_tick,
        pool_key_db,
        mut pool,
    } = Loaded::from_store(deps.storage, &info.sender, index)?;

    let (x, y) = position.claim_fee("""), (X, """#[allow(clippy::too_many_arguments)]
pub fn create_position(""", """struct Loaded {
    position: Position,
    lower_tick: crate::Tick,
    upper_tick: crate::Tick,
    pool_key_db: Vec<u8>,
    pool: crate::Pool,
}

impl Loaded {
    fn from_store(store: &dyn cosmwasm_std::Storage, owner: &Addr, index: u32) -> Result<Self, ContractError> {
        let position = state::get_position(store, owner, index)?;
        let ticks = [position.lower_tick_index, position.upper_tick_index]
            .into_iter()
            .map(|i| state::get_tick(store, &position.pool_key, i))
            .collect::<Result<Vec<_>, _>>()?;
        let pool_key_db = position.pool_key.key();
        let pool = POOLS.load(store, &pool_key_db)?;
        Ok(Loaded { lower_tick: ticks[0], upper_tick: ticks[1], position, pool_key_db, pool })
    }
}

#[allow(clippy::too_many_arguments)]
pub fn create_position(""")]),
 ("r12-settle-loop", "ref", [(X, """    if deinitialize_lower_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &lower_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.lower_tick_index,
            &lower_tick,
        )?;
    }

    if deinitialize_upper_tick {
        remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, &upper_tick)?;
    } else {
        state::update_tick(
            deps.storage,
            &position.pool_key,
            position.upper_tick_index,
            &upper_tick,
        )?;
    }
""", """    for (empty, tick) in [
        (deinitialize_lower_tick, &lower_tick),
        (deinitialize_upper_tick, &upper_tick),
    ] {
        if empty {
            remove_tick_and_flip_bitmap(deps.storage, &position.pool_key, tick)?;
            continue;
        }
        state::update_tick(deps.storage, &position.pool_key, tick.index, tick)?;
    }
""")]),
 ("r12-pay-fn", "ref", [(X, PAY, """    let msgs = pay_out(deps.api, &position.pool_key, (amount_x, amount_y), &info)?;
"""), (X, """#[allow(clippy::too_many_arguments)]
pub fn create_position(""", """fn pay_out(
    api: &dyn cosmwasm_std::Api,
    key: &PoolKey,
    (x, y): (TokenAmount, TokenAmount),
    info: &MessageInfo,
) -> Result<Vec<cosmwasm_std::CosmosMsg>, ContractError> {
    let mut msgs = Vec::with_capacity(2);
    let mut pay = |denom: &str, amount: TokenAmount| -> Result<(), ContractError> {
        let asset = Asset { info: AssetInfo::from_denom(api, denom), amount: amount.into() };
        asset.transfer(&mut msgs, info)?;
        Ok(())
    };
    pay(&key.token_x, x)?;
    pay(&key.token_y, y)?;
    Ok(msgs)
}

#[allow(clippy::too_many_arguments)]
pub fn create_position(""")]),
 ("r12-generic-load", "ref", [(S, """    let tick = TICKS
        .load(store, &db_key)
        .map_err(|_| ContractError::TickNotFound)?;

    Ok(tick)
}
""", """    load_or(&TICKS, store, &db_key, ContractError::TickNotFound)
}

fn load_or<T: cosmwasm_schema::serde::Serialize + cosmwasm_schema::serde::de::DeserializeOwned>(
    map: &Map<&[u8], T>,
    store: &dyn Storage,
    key: &[u8],
    missing: ContractError,
) -> Result<T, ContractError> {
    match map.may_load(store, key) {
        Ok(Some(v)) => Ok(v),
        _ => Err(missing),
    }
}
"""), (S, """    let position = POSITIONS
        .load(store, db_key)
        .map_err(|_| ContractError::PositionNotFound)?;

    Ok(position)
""", """    load_or(&POSITIONS, store, db_key, ContractError::PositionNotFound)
""")]),
 ("r12-must-exist", "ref", [(S, """    let db_key = tick_key(pool_key, index);

    if !TICKS.has(store, &db_key) {
        return Err(ContractError::TickNotFound);
    }

    TICKS.save(store, &db_key, tick)?;

    Ok(())
""", """    let db_key = existing_tick(store, pool_key, index)?;
    Ok(TICKS.save(store, &db_key, tick)?)
"""), (S, """    let db_key = tick_key(pool_key, index);

    if !TICKS.has(store, &db_key) {
        return Err(ContractError::TickNotFound);
    }

    TICKS.remove(store, &db_key);
    Ok(())
}
""", """    existing_tick(store, pool_key, index).map(|db_key| TICKS.remove(store, &db_key))
}

fn existing_tick(store: &dyn Storage, pool_key: &PoolKey, index: i32) -> Result<Vec<u8>, ContractError> {
    Some(tick_key(pool_key, index))
        .filter(|k| TICKS.has(store, k))
        .ok_or(ContractError::TickNotFound)
}
""")]),
 ("r12-owner-list", "ref", [(S, """    let positions_length: u32 = get_position_length(store, account_id);
    let db_key = position_key(account_id, positions_length);
    POSITIONS.save(store, &db_key, position)?;

    POSITIONS_LENGTH.save(store, account_id.as_bytes(), &(positions_length + 1))?;
    Ok(())
""", """    let mut list = OwnerList { store, owner: account_id };
    list.push(position)
"""), (S, """pub fn add_position(""", """struct OwnerList<'a> {
    store: &'a mut dyn Storage,
    owner: &'a Addr,
}

impl<'a> OwnerList<'a> {
    fn len(&self) -> u32 {
        get_position_length(self.store, self.owner)
    }
    fn set_len(&mut self, n: u32) -> Result<(), ContractError> {
        POSITIONS_LENGTH.save(self.store, self.owner.as_bytes(), &n)?;
        Ok(())
    }
    fn push(&mut self, position: &Position) -> Result<(), ContractError> {
        let n = self.len();
        POSITIONS.save(self.store, &position_key(self.owner, n), position)?;
        self.set_len(n + 1)
    }
}

pub fn add_position(""")]),
 ("r12-remove-take", "ref", [(S, """    if index < positions_length {
        let prev_db_key = position_key(account_id, positions_length);
        let last_position = POSITIONS.load(store, &prev_db_key)?;
        POSITIONS.remove(store, &prev_db_key);
        POSITIONS.save(store, &db_key, &last_position)?;
    } else {
        POSITIONS.remove(store, &db_key);
    }
""", """    let last_key = position_key(account_id, positions_length);
    if index != positions_length && index < positions_length {
        let last_position = POSITIONS.load(store, &last_key)?;
        POSITIONS.save(store, &db_key, &last_position)?;
        POSITIONS.remove(store, &last_key);
    } else {
        POSITIONS.remove(store, &db_key);
    }
""")]),
 ("r12-closer-combinators", "ref", [(S, """    let (index, is_initialized) = match closes_tick_index {
        Some(index) => (index, true),
        None => {
            let index = get_search_limit(current_tick, tick_spacing, !x_to_y);
            if current_tick == index {
                return Err(ContractError::TickLimitReached {});
            }
            (index, false)
        }
    };

    let sqrt_price = calculate_sqrt_price(index)?;
    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
        Ok((sqrt_price, Some((index, is_initialized))))
    } else {
        Ok((sqrt_price_limit, None))
    }
""", """    let index = closes_tick_index
        .or_else(|| Some(get_search_limit(current_tick, tick_spacing, !x_to_y)).filter(|i| *i != current_tick))
        .ok_or(ContractError::TickLimitReached {})?;

    let sqrt_price = calculate_sqrt_price(index)?;
    let before_limit = match x_to_y {
        true => sqrt_price > sqrt_price_limit,
        false => sqrt_price < sqrt_price_limit,
    };
    Ok(if before_limit {
        (sqrt_price, Some((index, closes_tick_index.is_some())))
    } else {
        (sqrt_price_limit, None)
    })
""")]),
 ("r12-dispatch-split", "ref", [(CT, """        ExecuteMsg::Approve {
            spender,
            token_id,
            expires,
        } => handle_approve""", """        other => execute_nft(deps, env, info, other),
    }
}

fn execute_nft(
    deps: DepsMut,
    env: Env,
    info: MessageInfo,
    msg: ExecuteMsg,
) -> Result<Response, ContractError> {
    match msg {
        ExecuteMsg::Approve {
            spender,
            token_id,
            expires,
        } => handle_approve"""), (CT, """            extension.slippage_limit_lower,
            extension.slippage_limit_upper,
        ),
    }
""", """            extension.slippage_limit_lower,
            extension.slippage_limit_upper,
        ),
        _ => Err(ContractError::Unauthorized {}),
    }
""")]),
 ("r12-query-split", "ref", [(CT, """        QueryMsg::OwnerOf {
            token_id,
            include_expired,
        } => to_binary(&query_owner_of(""", """        other => query_nft(deps, env, other),
    }
}

fn query_nft(deps: Deps, env: Env, msg: QueryMsg) -> StdResult<Binary> {
    match msg {
        QueryMsg::OwnerOf {
            token_id,
            include_expired,
        } => to_binary(&query_owner_of("""), (CT, """            to_binary(&query_all_tokens(deps, start_after, limit)?)
        }
    }
""", """            to_binary(&query_all_tokens(deps, start_after, limit)?)
        }
        _ => unreachable!(),
    }
""")]),
 ("r12-admin-macro", "ref", [(X, """pub fn change_protocol_fee(
    deps: DepsMut,
    info: MessageInfo,
    protocol_fee: Percentage,
) -> Result<Response, ContractError> {""", """macro_rules! only_admin {
    ($deps:expr, $info:expr) => {{
        let config = CONFIG.load($deps.storage)?;
        cosmwasm_std::ensure_eq!($info.sender, config.admin, ContractError::Unauthorized {});
        config
    }};
}

pub fn change_protocol_fee(
    deps: DepsMut,
    info: MessageInfo,
    protocol_fee: Percentage,
) -> Result<Response, ContractError> {
    let _checked = only_admin!(deps, info);""")]),
 ("r12-hop-helper", "ref", [(K, """    for swap_hop in &swaps {
        let sqrt_price_limit = if swap_hop.x_to_y {
            SqrtPrice::new(MIN_SQRT_PRICE)
        } else {
            SqrtPrice::new(MAX_SQRT_PRICE)
        };

        next_swap_amount = calculate_swap(
            store,
            current_timestamp,
            &swap_hop.pool_key,
            swap_hop.x_to_y,
            next_swap_amount,
            true,
            sqrt_price_limit,
        )?
        .amount_out;
    }

    Ok(next_swap_amount)
""", """    let hop = |amount: TokenAmount, SwapHop { pool_key, x_to_y }: &SwapHop| {
        let limit = SqrtPrice::new(if *x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE });
        calculate_swap(store, current_timestamp, pool_key, *x_to_y, amount, true, limit)
            .map(|r| r.amount_out)
    };
    for h in swaps.iter() {
        next_swap_amount = hop(next_swap_amount, h)?;
    }

    Ok(next_swap_amount)
""")]),
 ("r12-slice-filter-map", "ref", [(K, """    let mut tickmap_slice: Vec<(u16, u64)> = vec![];

    for chunk_index in range {
        if let Ok(chunk) = state::get_bitmap_item(store, chunk_index, pool_key) {
            tickmap_slice.push((chunk_index, chunk));

            if tickmap_slice.len() == MAX_TICKMAP_QUERY_SIZE {
                return tickmap_slice;
            }
        }
    }

    tickmap_slice
""", """    range
        .filter_map(|chunk_index| {
            state::get_bitmap_item(store, chunk_index, pool_key)
                .ok()
                .map(|chunk| (chunk_index, chunk))
        })
        .take(MAX_TICKMAP_QUERY_SIZE)
        .collect()
""")]),
 # bugs
 ("b12-hop-funds-token", "bug", [(K, """        let token_in = if swap_hop.x_to_y {
            &swap_hop.pool_key.token_x
        } else {
            &swap_hop.pool_key.token_y
        };
        info.funds.retain(|coin| coin.denom.ne(token_in));""", """        let token_in = if !swap_hop.x_to_y {
            &swap_hop.pool_key.token_x
        } else {
            &swap_hop.pool_key.token_y
        };
        info.funds.retain(|coin| coin.denom.ne(token_in));""")]),
 ("b12-search-limit-same", "bug", [(S, """            if current_tick == index {
                return Err(ContractError::TickLimitReached {});
            }
            (index, false)""", """            if current_tick == index && x_to_y {
                return Err(ContractError::TickLimitReached {});
            }
            (index, false)""")]),
 ("b12-remove-order", "bug", [(S, """        POSITIONS.remove(store, &prev_db_key);
        POSITIONS.save(store, &db_key, &last_position)?;
    } else {""", """        POSITIONS.save(store, &db_key, &last_position)?;
        if index + 1 < positions_length {
            POSITIONS.remove(store, &prev_db_key);
        }
    } else {""")]),
 ("b12-update-lower-only", "bug", [(X, """    state::update_tick(deps.storage, &pool_key, lower_tick.index, &lower_tick)?;
    state::update_tick(deps.storage, &pool_key, upper_tick.index, &upper_tick)?;
""", """    state::update_tick(deps.storage, &pool_key, lower_tick.index, &lower_tick)?;
    if upper_tick.index != pool.current_tick_index {
        state::update_tick(deps.storage, &pool_key, upper_tick.index, &upper_tick)?;
    }
""")]),
 ("b12-claim-pool-notsaved", "bug", [(X, """    state::update_position(deps.storage, &info.sender, index, &position)?;
    POOLS.save(deps.storage, &pool_key_db, &pool)?;
    state::update_tick(""", """    if !(x.is_zero() && y.is_zero()) {
        state::update_position(deps.storage, &info.sender, index, &position)?;
    }
    POOLS.save(deps.storage, &pool_key_db, &pool)?;
    state::update_tick(""")]),
 ("b12-tickslice-limit", "bug", [(K, "if tickmap_slice.len() == MAX_TICKMAP_QUERY_SIZE {", "if tickmap_slice.len() + 1 == MAX_TICKMAP_QUERY_SIZE {")]),
]
