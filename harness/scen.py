"""Registry of the scenario generators, one per property."""
import scen_cost
import scen_def
import scen_energy
import scen_inv
import scen_jobs
import scen_ops
import scen_pair
import scen_repr
import scen_req
import scen_session
import scen_test


def get(prop):
    return {
        "C01": lambda rng, tier, gen: scen_pair.c01(rng, tier),
        "C02": lambda rng, tier, gen: scen_pair.c02(rng, tier, (gen or {}).get("order_types", ())),
        "C03": lambda rng, tier, gen: scen_pair.c03(rng, tier),
        "C04": lambda rng, tier, gen: scen_inv.c04(rng, tier),
        "C05": lambda rng, tier, gen: scen_test.c05(rng, tier),
        "C06": lambda rng, tier, gen: scen_jobs.c06(rng, tier, gen),
        "C07": lambda rng, tier, gen: scen_energy.c07(rng, tier),
        "C08": lambda rng, tier, gen: scen_energy.c08(rng, tier),
        "C09": lambda rng, tier, gen: scen_def.c09(rng, tier),
        "C10": lambda rng, tier, gen: scen_ops.c10(rng, tier, gen),
        "C11": lambda rng, tier, gen: scen_req.c11(rng, tier, gen),
        "C12": lambda rng, tier, gen: scen_session.c12(rng, tier, gen),
        "C13": lambda rng, tier, gen: scen_repr.c13(rng, tier),
        "C14": lambda rng, tier, gen: scen_req.c14(rng, tier, gen),
        "C15": lambda rng, tier, gen: scen_def.c15(rng, tier),
        "C16": lambda rng, tier, gen: scen_def.c16(rng, tier),
        "C17": lambda rng, tier, gen: scen_def.c17(rng, tier),
        "C18": lambda rng, tier, gen: scen_test.c18(rng, tier),
        "C19": lambda rng, tier, gen: scen_cost.c19(rng, tier),
    }[prop]
