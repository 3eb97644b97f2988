D = "packages/decimal-core/src/"
F = "math/types/fee_growth.rs"
EDITS = [
 ("b7-liq-sat", "bug", [("storage/tick.rs", """                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;""", """                .checked_add(self.liquidity_change)
                .unwrap_or(Liquidity::max_instance());""")]),
 ("b7-fee-clamp", "bug", [(F, """                .ok_or(ContractError::Mul)?
                .try_into()
                .map_err(|_| (ContractError::Cast))?,
        ))
    }

    pub fn to""".replace("Mul", "Div"), """                .ok_or(ContractError::Div)?
                .try_into()
                .unwrap_or(u128::MAX),
        ))
    }

    pub fn to""")]),
 ("b7-tofee-clamp", "bug", [(F, """                .checked_div(U256::from(10).pow(U256::from(Self::scale() + Liquidity::scale())))
                .ok_or(ContractError::Mul)?
                .try_into()
                .map_err(|_| (ContractError::Cast))?,""", """                .checked_div(U256::from(10).pow(U256::from(Self::scale() + Liquidity::scale())))
                .ok_or(ContractError::Mul)?
                .try_into()
                .unwrap_or_default(),""")]),
 ("b7-add-sat", "bug", [(D + "ops.rs", """                Self::new(self.get()
                    .checked_add(rhs.get())
                    .unwrap_or_else(|| panic!("decimal: overflow in method {}::add()", #name_str))
                )""", """                Self::new(self.get()
                    .checked_add(rhs.get())
                    .unwrap_or(rhs.get())
                )""")]),
 ("b7-bigmul-lowu128", "bug", [("math/types/sqrt_price.rs", """            .checked_div(Self::one::<U256>())
            .ok_or(ContractError::Div)?
            .try_into()
            .map_err(|_| ContractError::Cast)?;
        Ok(TokenAmount(result))""", """            .checked_div(Self::one::<U256>())
            .ok_or(ContractError::Div)?
            .low_u128();
        Ok(TokenAmount(result))""")]),
 ("b7-gross-wrap", "bug", [("storage/tick.rs", "            self.liquidity_change += liquidity_delta;", "            self.liquidity_change = Liquidity::new(self.liquidity_change.get().wrapping_add(liquidity_delta.get()));")]),
 ("b7-divup-floor", "bug", [(D + "others.rs", "                        .checked_add(T::almost_one())\n                        .unwrap_or_else(|| core::panic!(\"decimal: overflow in method {}::mul_up()\", #name_str))\n", "")]),
 ("b7-bigdivup-one", "bug", [(D + "by_number.rs", "rhs.checked_sub(#big_type::from(1u8)).ok_or_else(|| \"checked_big_div_by_number_up: (rhs - 1) subtraction overflow\")?", "rhs")]),
 ("b7-subabs", "bug", [(D + "others.rs", "                    rhs - self\n", "                    self - rhs\n")]),
 ("b7-u320", "bug", [("packages/decimal/src/uint.rs", "    if !(n >> 256).is_zero() {\n        return None;\n    }\n", "    if !(n >> 257).is_zero() {\n        return None;\n    }\n")]),
 ("b7-fromscale", "bug", [(D + "factories.rs", "                        .checked_add(\n                            &denominator.checked_sub(&T::from(1u8)).unwrap()\n                        ).unwrap()\n", "")]),
 ("b7-checkedadd-sub", "bug", [(D + "checked_ops.rs", "self.get().checked_sub(rhs.get())\n                    .ok_or_else(|| \"checked_sub: (self - rhs) subtraction underflow\")?", "self.get().checked_sub(rhs.get())\n                    .unwrap_or(0)")]),
 ("r7-add-match", "ref", [(D + "ops.rs", """                Self::new(self.get()
                    .checked_add(rhs.get())
                    .unwrap_or_else(|| panic!("decimal: overflow in method {}::add()", #name_str))
                )""", """                match self.get().checked_add(rhs.get()) {
                    Some(v) => Self::new(v),
                    None => panic!("decimal: overflow in method {}::add()", #name_str),
                }""")]),
 ("r7-liq-match", "ref", [("storage/tick.rs", """            pool.liquidity = pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;""", """            pool.liquidity = match pool.liquidity.checked_add(self.liquidity_change) {
                Ok(v) => v,
                Err(_) => return Err(ContractError::PoolAddTickLiquidityOverflow),
            };""")]),
 ("r7-fee-steps", "ref", [(F, """        Ok(Self::new(
            U256::from(fee.get())
                .checked_mul(Self::one())
                .ok_or(ContractError::Mul)?
                .checked_mul(Liquidity::one())
                .ok_or(ContractError::Mul)?
                .checked_div(liquidity.here())
                .ok_or(ContractError::Div)?
                .try_into()
                .map_err(|_| (ContractError::Cast))?,
        ))""", """        if liquidity.is_zero() {
            return Err(ContractError::Div);
        }
        let unit = Self::one::<U256>() * Liquidity::one::<U256>();
        let scaled = U256::from(fee.get()).checked_mul(unit).ok_or(ContractError::Mul)?;
        let growth: U256 = scaled / liquidity.here::<U256>();
        let growth: u128 = growth.try_into().map_err(|_| ContractError::Cast)?;
        Ok(Self::new(growth))""")]),
 ("r7-overflowing", "ref", [(F, "        Self::new(self.get().wrapping_add(other.get()))", "        let (sum, _) = self.get().overflowing_add(other.get());\n        Self::new(sum)")]),
 ("r7-overflowing-checked", "ref", [("storage/tick.rs", """            pool.liquidity = pool
                .liquidity
                .checked_add(self.liquidity_change)
                .map_err(|_| ContractError::PoolAddTickLiquidityOverflow)?;""", """            let (sum, wrapped) = pool.liquidity.get().overflowing_add(self.liquidity_change.get());
            if wrapped {
                return Err(ContractError::PoolAddTickLiquidityOverflow);
            }
            pool.liquidity = Liquidity::new(sum);""")]),
 ("r7-overflowing-sub", "ref", [(F, "        Self::new(self.get().wrapping_sub(other.get()))", "        Self::new(self.get().overflowing_sub(other.get()).0)")]),
 ("r7-overflowing-subc", "ref", [("storage/tick.rs", """            pool.liquidity = pool
                .liquidity
                .checked_sub(self.liquidity_change)
                .map_err(|_| ContractError::PoolSubTickLiquidityUnderflow)?;""", """            let (rest, below) = pool.liquidity.get().overflowing_sub(self.liquidity_change.get());
            if below {
                return Err(ContractError::PoolSubTickLiquidityUnderflow);
            }
            pool.liquidity = Liquidity::new(rest);""")]),
 ("r7-subabs", "ref", [(D + "others.rs", """                if self.get() > rhs.get() {
                    self - rhs
                } else {
                    rhs - self
                }""", """                Self::new(self.get().abs_diff(rhs.get()))""")]),
 ("r7-mulup", "ref", [(D + "big_ops.rs", "                        .checked_add(T::almost_one())\n                        .unwrap_or_else(|| core::panic!(\"decimal: overflow in method {}::big_mul_up()\", #name_str))\n                        .checked_div(", "                        .checked_add(T::one::<#big_type>() - #big_type::from(1u128))\n                        .unwrap_or_else(|| core::panic!(\"decimal: overflow in method {}::big_mul_up()\", #name_str))\n                        .checked_div(")]),
 ("r7-u320", "ref", [("packages/decimal/src/uint.rs", "    if !(n >> 256).is_zero() {\n        return None;\n    }\n", "    if n.0[4] != 0 {\n        return None;\n    }\n")]),
 ("r7-change", "ref", [("storage/tick.rs", "            self.liquidity_change += liquidity_delta;", "            self.liquidity_change = self.liquidity_change + liquidity_delta;")]),
]
