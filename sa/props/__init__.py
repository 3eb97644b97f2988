PROPS, FLOORS = {}, {}


def prop(pid, floor=1):
    def deco(fn):
        PROPS[pid] = fn
        FLOORS[pid] = floor
        return fn
    return deco


from . import amounts, admin, positions, liquidity, swap, opening, search, queries, prices, sdk, overflow, decimals, records, lifecycle, estimate
