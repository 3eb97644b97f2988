C = "math/clamm.rs"
STEP_OLD = """        if not_max || !by_amount_in {
            amount_in = get_delta_x(next_sqrt_price, current_sqrt_price, liquidity, true)?
        };
        if not_max || by_amount_in {
            amount_out = get_delta_y(next_sqrt_price, current_sqrt_price, liquidity, false)?
        }
"""
EDITS = [
 ("b-dx-down-floor", "bug", [(C, "sqrt_price_a.big_mul_to_value_up(sqrt_price_b),", "sqrt_price_a.big_mul_to_value(sqrt_price_b),")]),
 ("b-dx-nom", "bug", [(C, "delta_price.big_mul_to_value_up(liquidity),", "delta_price.big_mul_to_value(liquidity),")]),
 ("b-dy-up", "bug", [(C, ".big_mul_to_value_up(liquidity)\n            .checked_add(SqrtPrice::almost_one())", ".big_mul_to_value(liquidity)\n            .checked_add(SqrtPrice::almost_one())")]),
 ("b-nx-up", "bug", [(C, "starting_sqrt_price.big_mul_to_value_up(liquidity),\n        denominator,", "starting_sqrt_price.big_mul_to_value(liquidity),\n        denominator,")]),
 ("b-ny-sub-down", "bug", [(C, "let quotient = SqrtPrice::checked_big_div_values_up(numerator, denominator)?;", "let quotient = SqrtPrice::checked_big_div_values(numerator, denominator)?;")]),
 ("b-step-fee-down", "bug", [(C, "amount_in.big_mul_up(fee)", "amount_in.big_mul(fee)")]),
 ("b-step-fee-cond", "bug", [(C, "let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {", "let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price && amount_out > TokenAmount(0) {")]),
 ("b-step-clamp", "bug", [(C, "if !by_amount_in && amount_out > amount {", "if !by_amount_in && amount_out > amount && x_to_y {")]),
 ("b-step-ge", "bug", [(C, "if amount_after_fee >= amount_in {", "if amount_after_fee > amount_in {")]),
 ("b-step-x2y", "bug", [(C, "let x_to_y = current_sqrt_price >= target_sqrt_price;", "let x_to_y = current_sqrt_price > target_sqrt_price;")]),
 ("b-step-in-down", "bug", [(C, "amount_in = get_delta_y(current_sqrt_price, next_sqrt_price, liquidity, true)?", "amount_in = get_delta_y(current_sqrt_price, next_sqrt_price, liquidity, by_amount_in)?")]),
 ("b-enough", "bug", [(C, "    let next_sqrt_price = (if by_amount_in {\n        let amount_after_fee = amount.big_mul(", "    let next_sqrt_price = (if by_amount_in {\n        let amount_after_fee = amount.big_mul_up(")]),
 ("b-min-out", "bug", [(C, "expected_amount_out.big_mul_up(Percentage::from_integer(1u8) - slippage)", "expected_amount_out.big_mul(Percentage::from_integer(1u8) - slippage)")]),
 ("b-u320-drop", "bug", [("packages/decimal/src/uint.rs", "        (n >> 192).low_u64(),\n        0,\n", "        0,\n        0,\n")]),
 ("b-token-up", "bug", [("math/types/sqrt_price.rs", ".checked_add(denominator - 1)\n            .ok_or(ContractError::Add)?\n            .checked_div(denominator)\n            .ok_or(ContractError::Div)?;\n\n        let result = checked_u320_to_u256(intermediate_u320)\n            .ok_or(ContractError::U320ToU256)?\n            .checked_add(Self::almost_one", ".checked_div(denominator)\n            .ok_or(ContractError::Div)?;\n\n        let result = checked_u320_to_u256(intermediate_u320)\n            .ok_or(ContractError::U320ToU256)?\n            .checked_add(Self::almost_one")]),
 ("b-bigmulup", "bug", [("packages/decimal-core/src/big_ops.rs", ".checked_add(T::almost_one())",".checked_add(T::one())")]),
 # refactorings
 ("r-step-uncond", "ref", [(C, STEP_OLD, """        amount_in = get_delta_x(next_sqrt_price, current_sqrt_price, liquidity, true)?;
        amount_out = get_delta_y(next_sqrt_price, current_sqrt_price, liquidity, false)?;
""")]),
 ("r-step-order", "ref", [(C, "get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)\n        } else {", "get_delta_x(current_sqrt_price, target_sqrt_price, liquidity, true)\n        } else {")]),
 ("r-step-min", "ref", [(C, "    if !by_amount_in && amount_out > amount {\n        amount_out = amount;\n    }\n", "    if !by_amount_in {\n        amount_out = if amount_out <= amount { amount_out } else { amount };\n    }\n")]),
 ("r-step-helper", "ref", [(C, "    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {\n        amount - amount_in\n    } else {\n        amount_in.big_mul_up(fee)\n    };\n", "    let fee_amount = step_fee(by_amount_in && not_max, amount, amount_in, fee);\n"),
   (C, "pub fn get_delta_x(", "fn step_fee(exhausted: bool, amount: TokenAmount, used: TokenAmount, fee: Percentage) -> TokenAmount {\n    if exhausted {\n        return amount - used;\n    }\n    used.big_mul_up(fee)\n}\n\npub fn get_delta_x(")]),
 ("r-dx-if", "ref", [(C, "    let delta_price: SqrtPrice = if sqrt_price_a > sqrt_price_b {\n        sqrt_price_a - sqrt_price_b\n    } else {\n        sqrt_price_b - sqrt_price_a\n    };", "    let (low, high) = if sqrt_price_a < sqrt_price_b { (sqrt_price_a, sqrt_price_b) } else { (sqrt_price_b, sqrt_price_a) };\n    let delta_price: SqrtPrice = high - low;")]),
 ("r-dx-match", "ref", [(C, "    match rounding_up {\n        true => SqrtPrice::big_div_values_to_token_up(\n            delta_price.big_mul_to_value_up(liquidity),\n            sqrt_price_a.big_mul_to_value(sqrt_price_b),\n        ),\n        false => SqrtPrice::big_div_values_to_token(\n            delta_price.big_mul_to_value(liquidity),\n            sqrt_price_a.big_mul_to_value_up(sqrt_price_b),\n        ),\n    }",
   "    if !rounding_up {\n        let denominator = sqrt_price_b.big_mul_to_value_up(sqrt_price_a);\n        return SqrtPrice::big_div_values_to_token(delta_price.big_mul_to_value(liquidity), denominator);\n    }\n    let denominator = sqrt_price_b.big_mul_to_value(sqrt_price_a);\n    SqrtPrice::big_div_values_to_token_up(delta_price.big_mul_to_value_up(liquidity), denominator)")]),
 ("r-dy-div", "ref", [(C, "        true => delta\n            .big_mul_to_value_up(liquidity)\n            .checked_add(SqrtPrice::almost_one())\n            .ok_or(ContractError::Add)?\n            .checked_div(SqrtPrice::one())\n            .ok_or(ContractError::Div)?,", "        true => {\n            let scaled: U256 = delta.big_mul_to_value_up(liquidity);\n            let (q, r) = (scaled / SqrtPrice::one::<U256>(), scaled % SqrtPrice::one::<U256>());\n            if r.is_zero() { q } else { q + U256::from(1u8) }\n        }")]),
 ("r-nx-match", "ref", [(C, "    let denominator = match add_x {\n        true => price_delta.checked_add(starting_sqrt_price.big_mul_to_value(x)),\n        false => price_delta.checked_sub(starting_sqrt_price.big_mul_to_value(x)),\n    }\n    .ok_or(ContractError::BigLiquidityOverflow)?; // never should be triggered", "    let shift = starting_sqrt_price.big_mul_to_value(x);\n    let denominator = if add_x { price_delta.checked_add(shift) } else { price_delta.checked_sub(shift) };\n    let denominator = match denominator { Some(d) => d, None => return Err(ContractError::BigLiquidityOverflow) };")]),
 ("r-enough", "ref", [(C, "    if liquidity.is_zero() {\n        return Ok(true);\n    }\n\n    let next_sqrt_price = (if by_amount_in {", "    if liquidity == Liquidity::new(0) {\n        return Ok(true);\n    }\n\n    let next_sqrt_price = (if by_amount_in {"), (C, "Ok(starting_sqrt_price.ne(&next_sqrt_price))", "Ok(next_sqrt_price != starting_sqrt_price)")]),
]
