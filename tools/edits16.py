import re
R = "/repo/contracts/oraiswap-v3/src/"


def block(path, start):
    """the text of the item that starts with `start`, with its attributes, up to its closing brace in column 0 (or 4)"""
    s = open(R + path).read()
    i = s.index(start)
    ind = re.match(r" *", start).group()
    j = s.index("\n" + ind + "}\n", i) + len("\n" + ind + "}\n")
    return s[i:j]


C = "math/clamm.rs"
SP = "math/types/sqrt_price.rs"
S = "state.rs"
P = "storage/pool.rs"
T = "storage/tick.rs"
K = "entrypoints/common.rs"
L = "math/log.rs"
F = "math/types/fee_growth.rs"


def move(path, starts, mod):
    bs = [block(path, s) for s in starts]
    edits = [(path, b, "") for b in bs[1:]]
    body = "\n".join(bs)
    names = ", ".join(re.search(r"fn (\w+)", b).group(1) for b in bs)
    return edits + [(path, bs[0], "mod %s {\n    use super::*;\n\n%s}\npub use %s::{%s};\n" % (mod, body, mod, names))]


UPD = block(P, "    pub fn update_tick(")
TICKS = block(T, "pub struct Tick {")
EDITS = [
 ("r16-move-deltas", "ref", move(C, ["pub fn get_delta_x(", "pub fn get_delta_y("], "deltas")),
 ("r16-move-step", "ref", move(C, ["pub fn compute_swap_step("], "step")),
 ("r16-move-next", "ref", move(C, ["pub fn get_next_sqrt_price_x_up(", "pub fn is_enough_amount_to_change_price("], "next")),
 ("r16-move-price", "ref", move(SP, ["pub fn calculate_sqrt_price("], "table")),
 ("r16-move-log", "ref", move(L, ["pub fn get_tick_at_sqrt_price("], "lookup")),
 ("r16-move-search", "ref", move(S, ["pub fn next_initialized(", "pub fn prev_initialized(", "pub fn get_closer_limit("], "search")),
 ("r16-move-growth", "ref", move(F, ["pub fn calculate_fee_growth_inside("], "inside")),
 ("r16-move-swap", "ref", move(K, ["pub fn calculate_swap(", "pub fn create_tick("], "engine")),
 ("r16-move-method", "ref", [(P, "    #[allow(clippy::too_many_arguments)]\n" + UPD, ""), (P, "#[cfg(test)]\nmod tests {", "mod ticking {\n    use super::*;\n\n    impl Pool {\n" + UPD + "    }\n}\n\n#[cfg(test)]\nmod tests {")]),
 ("r16-move-type", "ref", [(T, "#[cw_serde]\n#[derive(Eq, Copy, Default)]\n" + TICKS, "mod record {\n    use super::*;\n\n    #[cw_serde]\n    #[derive(Eq, Copy, Default)]\n" + TICKS + "}\npub use record::Tick;\n")]),
]
