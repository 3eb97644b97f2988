L = "math/log.rs"
SP = "math/types/sqrt_price.rs"
src = open("/repo/contracts/oraiswap-v3/src/" + SP).read()
a = src.index("    if tick & 0x1 != 0 {"); b = src.index("    // Parsing to the Sqrt_price type")
chain = src[a:b]
import re
consts = re.findall(r"FixedPoint::new\((\d+)\)", chain)
EDITS = [
 ("b-tab-3", "P29", [(SP, "1000400060004", "1000400060014")]),
 ("b-tab-17", "P29", [(SP, "701536086265529", "701536086265592")]),
 ("b-tab-bit", "P29", [(SP, "tick & 0x0002_0000", "tick & 0x0004_0000")]),
 ("b-tab-max", "P29", [(SP, "if tick > MAX_TICK {", "if tick > MAX_TICK + 1 {")]),
 ("b-log-al", "P29", [(L, "false => accurate_tick - (accurate_tick.rem_euclid(tick_spacing)),", "false => accurate_tick - (accurate_tick % tick_spacing),")]),
 ("b-log-ge", "P29", [(L, "match sqrt_price >= farther_tick_sqrt_price_decimal {", "match sqrt_price > farther_tick_sqrt_price_decimal {")]),
 ("b-log-lt", "P29", [(L, "match nearer_tick_sqrt_price_decimal <= sqrt_price {", "match nearer_tick_sqrt_price_decimal < sqrt_price {")]),
 ("b-log-lose", "P29", [(L, "LOG2_NEGATIVE_MAX_LOSE: u64 = 300000", "LOG2_NEGATIVE_MAX_LOSE: u64 = 200000")]),
 ("b-log-acc", "P29", [(L, "LOG2_MIN_BINARY_POSITION: i32 = 15", "LOG2_MIN_BINARY_POSITION: i32 = 13")]),
 ("b-log-early", "P29", [(L, "    if farther_tick_with_spacing == nearer_tick_with_spacing {", "    if farther_tick_with_spacing == nearer_tick_with_spacing || tick_spacing > 50 {")]),
 ("b-log-range", "P29", [(L, "sqrt_price.get() > MAX_SQRT_PRICE || ", "")]),
 ("b-log-plus", "P29", [(L, "(LOG2_DOUBLE_ONE / (sqrt_price_x32 as u128 + 1))", "(LOG2_DOUBLE_ONE / (sqrt_price_x32 as u128))")]),
 ("b-log-msb", "P29", [(L, "    if sqrt_price_x32 >= 1u64 << 2 {", "    if sqrt_price_x32 > 1u64 << 2 {")]),
 ("r-tab-loop", "ref", [(SP, chain, "    const POWERS: [u128; 18] = [" + ", ".join(consts) + "];\n    for (i, p) in POWERS.iter().enumerate() {\n        if tick & (1 << i) != 0 {\n            sqrt_price *= FixedPoint::new(*p);\n        }\n    }\n\n")]),
 ("r-tab-shift", "ref", [(SP, "    if tick & 0x4 != 0 {", "    if (tick >> 2) & 1 == 1 {")]),
 ("r-tab-mul", "ref", [(SP, "        sqrt_price *= FixedPoint::new(1000200010000);", "        sqrt_price = sqrt_price * FixedPoint::new(1000200010000);")]),
 ("r-tab-order", "ref", [(SP, "    if tick & 0x1 != 0 {\n        sqrt_price *= FixedPoint::new(1000049998750);\n    }\n    if tick & 0x2 != 0 {\n        sqrt_price *= FixedPoint::new(1000100000000);\n    }\n", "    let f = |bit: i32, acc: FixedPoint, c: u128| if tick & bit != 0 { acc * FixedPoint::new(c) } else { acc };\n    sqrt_price = f(0x1, sqrt_price, 1000049998750);\n    sqrt_price = f(0x2, sqrt_price, 1000100000000);\n")]),
 ("r-log-al", "ref", [(L, "    match accurate_tick > 0 {\n        true => accurate_tick - (accurate_tick % tick_spacing),\n        false => accurate_tick - (accurate_tick.rem_euclid(tick_spacing)),\n    }\n", "    accurate_tick - accurate_tick.rem_euclid(tick_spacing)\n")]),
 ("r-log-al2", "ref", [(L, "    match accurate_tick > 0 {\n        true => accurate_tick - (accurate_tick % tick_spacing),\n        false => accurate_tick - (accurate_tick.rem_euclid(tick_spacing)),\n    }\n", "    accurate_tick.div_euclid(tick_spacing) * tick_spacing\n")]),
 ("r-log-if", "ref", [(L, "    Ok(match tick_spacing > 1 {\n        true => align_tick_to_spacing(accurate_tick, tick_spacing as i32),\n        false => accurate_tick,\n    })", "    Ok(accurate_tick)")]),
 ("r-log-for", "ref", [(L, "    let mut delta: u64 = LOG2_HALF;\n    while delta > LOG2_ACCURACY {\n        y = y * y / LOG2_ONE;\n        if y >= LOG2_TWO {\n            result |= delta;\n            y >>= 1;\n        }\n        delta >>= 1;\n    }\n", "    for place in (17..32).rev() {\n        y = (y * y) >> LOG2_SCALE;\n        if y >= LOG2_TWO {\n            result += 1u64 << place;\n            y /= 2;\n        }\n    }\n")]),
 ("r-log-msb", "ref", [(L, "fn log2_floor_x32(mut sqrt_price_x32: u64) -> u64 {\n    let mut msb = 0;\n", "fn log2_floor_x32(mut sqrt_price_x32: u64) -> u64 {\n    let mut msb: u64 = 0;\n    for shift in [32u32, 16, 8, 4, 2, 1] {\n        if sqrt_price_x32 >= 1u64 << shift {\n            sqrt_price_x32 >>= shift;\n            msb += shift as u64;\n        }\n    }\n    return msb;\n    #[allow(unreachable_code)]\n")]),
 ("r-log-sign", "ref", [(L, "    let nearer_tick = match log2_sign {\n        true => abs_floor_tick,\n        false => -abs_floor_tick,\n    };\n    let farther_tick = match log2_sign {\n        true => abs_floor_tick + 1,\n        false => -abs_floor_tick - 1,\n    };\n", "    let (nearer_tick, farther_tick) = if log2_sign {\n        (abs_floor_tick, abs_floor_tick + 1)\n    } else {\n        (-abs_floor_tick, -(abs_floor_tick + 1))\n    };\n")]),
]
