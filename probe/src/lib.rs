//! Instantiates every operation the decimal library offers, for fixed-point types of the contract's scales, so that
//! the analysis sees operations the contract itself does not (yet) use. Only analysed, never run.
#![allow(dead_code)]
use decimal::*;

#[decimal(6)]
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd)]
pub struct Liquidity(pub u128);

#[decimal(12)]
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd)]
pub struct Percentage(pub u64);

#[decimal(0)]
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd)]
pub struct TokenAmount(pub u128);

#[decimal(24)]
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd)]
pub struct SqrtPrice(pub u128);

#[decimal(28)]
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd)]
pub struct FeeGrowth(pub u128);

macro_rules! own {
    ($m:ident, $l:ident, $u:ty) => {
        pub mod $m {
            use super::*;
            pub fn scale() -> ($u, U256, U256, $u, $l, Result<U256, String>, u8) {
                (<$l as Decimal>::one(), <$l as Decimal>::one(), <$l as Decimal>::almost_one(), <$l as Decimal>::max_value(), <$l as Decimal>::max_instance(), <$l as Decimal>::checked_one(), <$l as Decimal>::scale())
            }
            pub fn own(a: $l, b: $l) -> ($l, $l, $l, $u, U256) {
                (a + b, a - b, a.sub_abs(b), a.get(), a.here())
            }
            pub fn assign(mut a: $l, b: $l) -> $l {
                a += b;
                a -= b;
                a *= b;
                a /= b;
                a
            }
            pub fn checked(a: $l, b: $l) -> (Result<$l, String>, Result<$l, String>, Result<$l, String>) {
                (CheckedOps::checked_add(a, b), CheckedOps::checked_sub(a, b), CheckedOps::checked_div(a, b))
            }
            pub fn number(a: $l, b: U256) -> ($l, $l, Result<$l, String>, Result<$l, String>) {
                (a.big_div_by_number(b), a.big_div_by_number_up(b), a.checked_big_div_by_number(b), a.checked_big_div_by_number_up(b))
            }
            pub fn scaled(a: $u, s: u8) -> ($l, $l, $l, Result<$l, String>, Result<U256, String>) {
                (
                    <$l as Factories<$u>>::from_integer(a),
                    <$l as Factories<$u>>::from_scale(a, s),
                    <$l as Factories<$u>>::from_scale_up(a, s),
                    <$l as Factories<$u>>::checked_from_scale(a, s),
                    <$l as FactoriesToValue<$u, U256>>::checked_from_scale_to_value(a, s),
                )
            }
        }
    };
}

macro_rules! pair {
    ($m:ident, $l:ident, $r:ident) => {
        pub mod $m {
            use super::*;
            pub fn big(a: $l, b: $r) -> ($l, $l, $l, $l, Result<$l, String>) {
                (a.big_mul(b), a.big_mul_up(b), a.big_div(b), a.big_div_up(b), a.checked_big_div(b))
            }
            pub fn value(a: $l, b: $r) -> (U256, U256) {
                (a.big_mul_to_value(b), a.big_mul_to_value_up(b))
            }
        }
    };
}

macro_rules! narrow {
    ($m:ident, $l:ident, $r:ident) => {
        pub mod $m {
            use super::*;
            pub fn plain(a: $l, b: $r) -> ($l, $l, $l, $l) {
                (a * b, a / b, a.mul_up(b), a.div_up(b))
            }
            pub fn convert(b: $r) -> ($l, $l, Result<$l, String>, Result<U256, String>) {
                (<$l>::from_decimal(b), <$l>::from_decimal_up(b), <$l>::checked_from_decimal(b), <$l>::checked_from_decimal_to_value(b))
            }
        }
    };
}

own!(o1, Liquidity, u128);
own!(o2, Percentage, u64);
own!(o3, TokenAmount, u128);
own!(o4, SqrtPrice, u128);
own!(o5, FeeGrowth, u128);

pair!(p11, Liquidity, Liquidity);
pair!(p12, Liquidity, Percentage);
pair!(p14, Liquidity, SqrtPrice);
pair!(p22, Percentage, Percentage);
pair!(p24, Percentage, SqrtPrice);
pair!(p32, TokenAmount, Percentage);
pair!(p34, TokenAmount, SqrtPrice);
pair!(p41, SqrtPrice, Liquidity);
pair!(p43, SqrtPrice, TokenAmount);
pair!(p44, SqrtPrice, SqrtPrice);
pair!(p51, FeeGrowth, Liquidity);

narrow!(n11, Liquidity, Liquidity);
narrow!(n12, Liquidity, Percentage);
narrow!(n14, Liquidity, SqrtPrice);
narrow!(n22, Percentage, Percentage);
narrow!(n32, TokenAmount, Percentage);
narrow!(n34, TokenAmount, SqrtPrice);
narrow!(n43, SqrtPrice, TokenAmount);
narrow!(n45, SqrtPrice, FeeGrowth);
narrow!(n54, FeeGrowth, SqrtPrice);
