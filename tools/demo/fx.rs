#![allow(dead_code, unused_imports)]
//! Small fixture: a contract instance in mock storage.
pub use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info, MockApi, MockQuerier, MockStorage};
pub use cosmwasm_std::{coin, from_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Env, OwnedDeps, Response, WasmMsg};
pub use cw20::{Cw20ExecuteMsg, Expiration};
pub use decimal::*;
pub use oraiswap_v3::contract::{execute, instantiate, query};
pub use oraiswap_v3::ContractError;
pub use oraiswap_v3::interface::*;
pub use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, NftExtensionMsg, QueryMsg};
pub use oraiswap_v3::{
    fee_growth::FeeGrowth, liquidity::Liquidity, percentage::Percentage,
    sqrt_price::calculate_sqrt_price, sqrt_price::SqrtPrice, token_amount::TokenAmount, FeeTier,
    Pool, PoolKey, Position, Tick,
};

pub struct Fx {
    pub d: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    pub e: Env,
}

pub fn tier(fee: u64, spacing: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: spacing }
}

pub fn key(a: &str, b: &str, t: FeeTier) -> PoolKey {
    PoolKey::new(a.into(), b.into(), t).unwrap()
}

impl Fx {
    pub fn new(protocol_fee: u64) -> Fx {
        let mut d = mock_dependencies();
        let e = mock_env();
        instantiate(d.as_mut(), e.clone(), mock_info("admin", &[]), InstantiateMsg { protocol_fee: Percentage::new(protocol_fee) }).unwrap();
        Fx { d, e }
    }
    pub fn x(&mut self, who: &str, funds: &[Coin], m: ExecuteMsg) -> Result<Response, ContractError> {
        // a failed message is rolled back by the chain
        let before: Vec<(Vec<u8>, Vec<u8>)> = self.dump();
        let r = execute(self.d.as_mut(), self.e.clone(), mock_info(who, funds), m);
        if r.is_err() {
            self.restore(before);
        }
        r
    }
    pub fn dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        use cosmwasm_std::Storage;
        self.d.storage.range(None, None, cosmwasm_std::Order::Ascending).collect()
    }
    fn restore(&mut self, to: Vec<(Vec<u8>, Vec<u8>)>) {
        use cosmwasm_std::Storage;
        let now = self.dump();
        for (k, _) in now {
            self.d.storage.remove(&k);
        }
        for (k, v) in to {
            self.d.storage.set(&k, &v);
        }
    }
    pub fn q<T: serde_free::De>(&self, m: QueryMsg) -> Result<T, String> {
        let b = query(self.d.as_ref(), self.e.clone(), m).map_err(|e| format!("{e:?}"))?;
        from_binary(&b).map_err(|e| format!("{e:?}"))
    }
    pub fn add_tier(&mut self, t: FeeTier) {
        self.x("admin", &[], ExecuteMsg::AddFeeTier { fee_tier: t }).unwrap();
    }
    pub fn pool(&mut self, a: &str, b: &str, t: FeeTier, tick: i32) -> PoolKey {
        self.x("maker", &[], ExecuteMsg::CreatePool { token_0: a.into(), token_1: b.into(), fee_tier: t, init_sqrt_price: calculate_sqrt_price(tick).unwrap(), init_tick: tick }).unwrap();
        key(a, b, t)
    }
    pub fn lp_msg(k: &PoolKey, lo: i32, hi: i32, l: u128) -> ExecuteMsg {
        ExecuteMsg::CreatePosition { pool_key: k.clone(), lower_tick: lo, upper_tick: hi, liquidity_delta: Liquidity::from_integer(l), slippage_limit_lower: SqrtPrice::new(0), slippage_limit_upper: SqrtPrice::max_instance() }
    }
    pub fn lp(&mut self, who: &str, k: &PoolKey, lo: i32, hi: i32, l: u128) -> Response {
        self.x(who, &[], Fx::lp_msg(k, lo, hi, l)).unwrap()
    }
    pub fn swap(&mut self, who: &str, k: &PoolKey, x_to_y: bool, amount: u128, by_in: bool) -> Result<Response, ContractError> {
        let lim = if x_to_y { SqrtPrice::new(oraiswap_v3::MIN_SQRT_PRICE) } else { SqrtPrice::new(oraiswap_v3::MAX_SQRT_PRICE) };
        self.x(who, &[], ExecuteMsg::Swap { pool_key: k.clone(), x_to_y, amount: TokenAmount(amount), by_amount_in: by_in, sqrt_price_limit: lim })
    }
    pub fn get_pool(&self, k: &PoolKey) -> Pool {
        oraiswap_v3::state::get_pool(&self.d.storage, k).unwrap()
    }
    pub fn get_tick(&self, k: &PoolKey, i: i32) -> Option<Tick> {
        oraiswap_v3::state::get_tick(&self.d.storage, k, i).ok()
    }
    pub fn get_pos(&self, who: &str, i: u32) -> Option<Position> {
        oraiswap_v3::state::get_position(&self.d.storage, &Addr::unchecked(who), i).ok()
    }
}

pub mod serde_free {
    pub trait De: for<'a> cosmwasm_std_de::Deserialize<'a> {}
    impl<T: for<'a> cosmwasm_std_de::Deserialize<'a>> De for T {}
    pub mod cosmwasm_std_de {
        pub use serde::Deserialize;
    }
}

pub fn token_id(owner: &str, i: u32) -> Binary {
    let mut v = owner.as_bytes().to_vec();
    v.extend_from_slice(&i.to_be_bytes());
    Binary(v)
}

/// cw20 transfers and bank sends paid out by a response: (recipient, token, amount)
pub fn paid(r: &Response) -> Vec<(String, String, u128)> {
    let mut out = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => {
                if let Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) = from_binary(msg) {
                    out.push((recipient, contract_addr.clone(), amount.u128()));
                }
            }
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                for c in amount {
                    out.push((to_address.clone(), c.denom.clone(), c.amount.u128()));
                }
            }
            _ => {}
        }
    }
    out
}

/// cw20 amounts pulled in by a response: (from, token, amount)
pub fn pulled(r: &Response) -> Vec<(String, String, u128)> {
    let mut out = vec![];
    for m in &r.messages {
        if let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) = &m.msg {
            if let Ok(Cw20ExecuteMsg::TransferFrom { owner, amount, .. }) = from_binary(msg) {
                out.push((owner, contract_addr.clone(), amount.u128()));
            }
        }
    }
    out
}
