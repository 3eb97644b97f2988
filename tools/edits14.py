D = "packages/decimal-core/src/"
LM = "logic/math.rs"
C = "math/clamm.rs"
F = "math/types/fee_growth.rs"
MUL = """                Self::new(
                    #big_type::try_from(self.get())
                        .unwrap_or_else(|_| core::panic!("decimal: lhs value can't fit into `{}` type in {}::big_mul()", #big_str, #name_str))
                        .checked_mul(
                            rhs.get()
                                .try_into()
                                .unwrap_or_else(|_| core::panic!("decimal: rhs value can't fit into `{}` type in {}::big_mul()", #big_str, #name_str))
                        )
                        .unwrap_or_else(|| core::panic!("decimal: overflow in method {}::big_mul()", #name_str))
                        .checked_div(
                            T::one()
                        )
                        .unwrap_or_else(|| core::panic!("decimal: overflow in method {}::big_mul()", #name_str))
                        .try_into()
                        .unwrap_or_else(|_| core::panic!("decimal: overflow casting result to `{}` type in method {}::big_mul()", #underlying_str, #name_str))

                )
"""
XLOW = """        let liquidity = Liquidity::new(
            (U256::from(x.get())
                * U256::from(nominator.get())
                * U256::from(Liquidity::from_integer(1).get())
                / U256::from(denominator.get()))
            .try_into()
            .map_err(|_| ContractError::OverflowInCalculatingLiquidity)?,
        );
        return Ok("""
EDITS = [
 ("r14-bigmul-steps", "ref", [(D + "big_ops.rs", MUL, """                let lhs: #big_type = match #big_type::try_from(self.get()) {
                    Ok(v) => v,
                    Err(_) => core::panic!("decimal: lhs value can't fit into `{}` type in {}::big_mul()", #big_str, #name_str),
                };
                let other: #big_type = match rhs.get().try_into() {
                    Ok(v) => v,
                    Err(_) => core::panic!("decimal: rhs value can't fit into `{}` type in {}::big_mul()", #big_str, #name_str),
                };
                let one: #big_type = T::one();
                let product = lhs
                    .checked_mul(other)
                    .unwrap_or_else(|| core::panic!("decimal: overflow in method {}::big_mul()", #name_str));
                let quotient = product
                    .checked_div(one)
                    .unwrap_or_else(|| core::panic!("decimal: overflow in method {}::big_mul()", #name_str));
                Self::new(quotient
                    .try_into()
                    .unwrap_or_else(|_| core::panic!("decimal: overflow casting result to `{}` type in method {}::big_mul()", #underlying_str, #name_str)))
""")]),
 ("r14-checkedadd-map", "ref", [(D + "checked_ops.rs", """                Ok(Self::new(
                    self.get().checked_add(rhs.get())
                    .ok_or_else(|| "checked_add: (self + rhs) additional overflow")?
                ))""", """                self.get()
                    .checked_add(rhs.get())
                    .map(Self::new)
                    .ok_or_else(|| "checked_add: (self + rhs) additional overflow".to_string())""")]),
 ("r14-checkedsub-cmp", "ref", [(D + "checked_ops.rs", """                Ok(Self::new(
                    self.get().checked_sub(rhs.get())
                    .ok_or_else(|| "checked_sub: (self - rhs) subtraction underflow")?
                ))""", """                if rhs.get() > self.get() {
                    return Err("checked_sub: (self - rhs) subtraction underflow".to_string());
                }
                Ok(Self::new(self.get() - rhs.get()))""")]),
 ("r14-addassign", "ref", [(D + "ops.rs", """                *self = *self + rhs
""", """                let sum = core::ops::Add::add(*self, rhs);
                *self = sum;
""")]),
 ("r14-new-update", "ref", [(D + "base.rs", """                let mut created = #struct_name::default();
                created.#field_name = value;
                created
""", """                let mut created = <#struct_name as core::default::Default>::default();
                let _ = core::mem::replace(&mut created.#field_name, value);
                created
""")]),
 ("r14-bynumber-sub", "ref", [(D + "by_number.rs", """                        .checked_add(
                            rhs.checked_sub(#big_type::from(1u8)).unwrap()
                        ).unwrap()
                        .checked_div(rhs).unwrap()
                        .try_into().unwrap()
                )
            }

            fn checked_big_div_by_number_up""", """                        .checked_add(rhs).unwrap()
                        .checked_sub(#big_type::from(1u8)).unwrap()
                        .checked_div(rhs).unwrap()
                        .try_into().unwrap()
                )
            }

            fn checked_big_div_by_number_up""")]),
 ("r14-estimate-helper", "ref", [(LM, """    if current_sqrt_price < lower_sqrt_price {
        let nominator =
            (lower_sqrt_price.big_mul(upper_sqrt_price)).big_div(SqrtPrice::from_integer(1));
        let denominator = upper_sqrt_price - lower_sqrt_price;
""" + XLOW, """    if current_sqrt_price < lower_sqrt_price {
        let liquidity = funded_by_x(x, lower_sqrt_price, upper_sqrt_price)?;
        return Ok("""), (LM, """    let nominator = current_sqrt_price
        .big_mul(upper_sqrt_price)
        .big_div(SqrtPrice::from_integer(1));
    let denominator = upper_sqrt_price - current_sqrt_price;
    let liquidity = Liquidity::new(
        (U256::from(x.get())
            * U256::from(nominator.get())
            * U256::from(Liquidity::from_integer(1).get())
            / U256::from(denominator.get()))
        .try_into()
        .map_err(|_| ContractError::OverflowInCalculatingLiquidity)?,
    );
""", """    let liquidity = funded_by_x(x, current_sqrt_price, upper_sqrt_price)?;
"""), (LM, """#[allow(dead_code)]
pub fn get_liquidity_by_y(""", """fn funded_by_x(
    x: TokenAmount,
    from: SqrtPrice,
    to: SqrtPrice,
) -> Result<Liquidity, ContractError> {
    let product = from.big_mul(to);
    let span = to - from;
    let scaled = U256::from(x.get()) * U256::from(Liquidity::from_integer(1).get()) * U256::from(product.get());
    let raw: u128 = (scaled / U256::from(span.get()))
        .try_into()
        .map_err(|_| ContractError::OverflowInCalculatingLiquidity)?;
    Ok(Liquidity::new(raw))
}

#[allow(dead_code)]
pub fn get_liquidity_by_y(""")]),
 ("r14-estimate-y-top", "ref", [(LM, """    if upper_sqrt_price <= current_sqrt_price {
        let sqrt_price_diff = upper_sqrt_price - lower_sqrt_price;
        let liquidity = Liquidity::new(
            (U256::from(y.get())
                * U256::from(SqrtPrice::from_integer(1).get())
                * U256::from(Liquidity::from_integer(1).get())
                / U256::from(sqrt_price_diff.get()))
            .try_into()
            .map_err(|_| ContractError::OverflowInCalculatingLiquidity)?,
        );
        return Ok(SingleTokenLiquidity {
            l: liquidity,
            amount: TokenAmount::new(0),
        });
    }

    let sqrt_price_diff = current_sqrt_price - lower_sqrt_price;
""", """    let top = if upper_sqrt_price <= current_sqrt_price {
        upper_sqrt_price
    } else {
        current_sqrt_price
    };
    let sqrt_price_diff = top - lower_sqrt_price;
"""), (LM, """    let denominator =
        (current_sqrt_price.big_mul(upper_sqrt_price)).big_div(SqrtPrice::from_integer(1));
    let nominator = upper_sqrt_price - current_sqrt_price;
""", """    if top == upper_sqrt_price {
        return Ok(SingleTokenLiquidity {
            l: liquidity,
            amount: TokenAmount::new(0),
        });
    }
    let denominator =
        (current_sqrt_price.big_mul(upper_sqrt_price)).big_div(SqrtPrice::from_integer(1));
    let nominator = upper_sqrt_price - current_sqrt_price;
""")]),
 ("r14-calcy", "ref", [(LM, """    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
    Ok(if rounding_up {
        TokenAmount::new(
            (((U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity))
                + U256::from(SqrtPrice::from_integer(1).get() - 1))
                / U256::from(SqrtPrice::from_integer(1).get()))
            .try_into()
            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
        )
    } else {
        TokenAmount::new(
            (U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity)
                / U256::from(SqrtPrice::from_integer(1).get()))
            .try_into()
            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
        )
    })
""", """    let one = U256::from(SqrtPrice::from_integer(1).get());
    let whole = U256::from(liquidity.get() / Liquidity::from_integer(1).get());
    let worth = U256::from(sqrt_price_diff.get()) * whole;
    let padding = if rounding_up { one - U256::from(1) } else { U256::from(0) };
    ((worth + padding) / one)
        .try_into()
        .map(TokenAmount::new)
        .map_err(|_| ContractError::OverflowCastingTokenAmount)
""")]),
 ("b14-calcy-order", "bug", [(LM, """            (U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity)
                / U256::from(SqrtPrice::from_integer(1).get()))
            .try_into()""", """            (U256::from(sqrt_price_diff.get()) * U256::from(liquidity.get())
                / U256::from(SqrtPrice::from_integer(1).get() * Liquidity::from_integer(1).get() as u128))
            .try_into()""")]),
 ("b14-estimate-edge", "bug", [(LM, """    if upper_sqrt_price <= current_sqrt_price {
        let sqrt_price_diff""", """    if upper_sqrt_price < current_sqrt_price {
        let sqrt_price_diff""")]),
 ("b14-by-x-tick-order", "bug", [(LM, """    if lower_tick < -MAX_TICK || upper_tick > MAX_TICK {
        return Err(ContractError::InvalidTick);
    }

    let lower_sqrt_price = calculate_sqrt_price(lower_tick)?;
    let upper_sqrt_price = calculate_sqrt_price(upper_tick)?;

    get_liquidity_by_x_sqrt_price(""", """    if lower_tick < -MAX_TICK || upper_tick >= MAX_TICK {
        return Err(ContractError::InvalidTick);
    }

    let lower_sqrt_price = calculate_sqrt_price(lower_tick)?;
    let upper_sqrt_price = calculate_sqrt_price(upper_tick)?;

    get_liquidity_by_x_sqrt_price(""")]),
 ("b14-bigmulup-exact", "bug", [(D + "big_ops.rs", """                        .checked_add(T::almost_one())
                        .unwrap_or_else(|| core::panic!("decimal: overflow in method {}::big_mul_up()", #name_str))""", """                        .checked_add(T::one())
                        .unwrap_or_else(|| core::panic!("decimal: overflow in method {}::big_mul_up()", #name_str))""")]),
]
