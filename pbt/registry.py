"""which generators and which oracles decide which property"""
from dataclasses import dataclass
from typing import Callable


@dataclass
class Sub:
    name: str
    fn: str                    # "<oracle module>:<function>", run under the repository's interpreter
    strategy: Callable
    quick: int
    thorough: int
    weight: float = 1.0
    mode: str = ""
    chunk: int = 40


from gens import sim

PROPS, RULES, TECH = {}, {}, {}
ASSUMPTIONS = [
    "the interpreter, numpy, pandas and the decimal module behave as documented",
    "inputs are generated inside the documented domain (positive finite prices and amounts); sizes are bounded as described in DESIGN.md",
]


def prop(pid, rule, tech, *subs):
    TECH[pid] = tech
    PROPS[pid] = list(subs)
    RULES[pid] = rule


prop("P01", "a history in which at least one trade was executed and settled (or quoted), with at least one maker; labels count by router fan-out and outcome", "histories of trades, settlement invariant between reported routes and order state", Sub("history", "simhist:p01", lambda: sim.history(), 480, 10000), Sub("big", "simhist:p01", lambda: sim.big_history(), 160, 8000))
prop("P02", "a history in which at least one trade was executed or quoted", "histories, state invariants after every step", Sub("history", "simhist:p02", lambda: sim.history(), 480, 10000), Sub("big", "simhist:p02", lambda: sim.big_history(), 160, 8000))
prop("P03", "a history in which at least one route was compared with its order's curve", "histories, differential against an independent curve model", Sub("history", "simhist:p03", lambda: sim.history(dels=False), 320, 10000), Sub("big", "simhist:p03", lambda: sim.big_history(), 160, 8000))
prop("P05", "a history in which at least one request was filled, partially filled, or refused for lack of liquidity", "histories, fill/refusal oracle computed from the eligible liquidity", Sub("history", "simhist:p05", lambda: sim.history(dels=False, limit=False), 320, 10000), Sub("big", "simhist:p05", lambda: sim.big_history(limit=False), 160, 8000))
prop("P07", "a history in which at least one trade with a limit was decided", "limit trades differential against the same request without a limit", Sub("history", "simhist:p07", lambda: sim.history(limit=True, dels=False, extreme=False), 320, 10000), Sub("big", "simhist:p07", lambda: sim.big_history(limit=True, extreme=False), 160, 8000))
prop("P08", "a history over several pairs with at least one routed trade, or a book with at least one order that must not matter", "eligibility model and metamorphic noise insertion", Sub("history", "simhist:p08", lambda: sim.history(multi=True), 480, 10000))
prop("P10", "a history that leaves a non-empty book or executed a trade", "stateful model of the book and of the trade log", Sub("history", "simhist:p10", lambda: sim.history(bads=True), 240, 10000), Sub("book", "simhist:p10", lambda: sim.history(bads=True, booky=True, max_trades=8), 320, 10000))
prop("P04", "at least two eligible orders and amounts above 1e-7", "independent optimum by bisection plus marginal price conditions", Sub("optimal", "simbook:p04", lambda: sim.optimal(), 320, 10000))
prop("P06", "at least two eligible orders and an amount below the available liquidity", "three routers differential plus subset optimum", Sub("compare", "simbook:p06", lambda: sim.compare(), 240, 10000))
PROPS["P08"].append(Sub("noise", "simbook:p08_noise", lambda: sim.noise(), 360, 10000))
prop("P09", "a trade that was split into pieces and compared, or a walk with at least two executed trades", "metamorphic splitting and round trips over sequences", Sub("split", "simbook:p09_split", lambda: sim.pieces(), 240, 10000), Sub("walk", "simbook:p09_round", lambda: sim.walk(), 240, 10000))
prop("P11", "a trade that succeeded in both notations and was compared", "metamorphic symmetries", Sub("symmetry", "simbook:p11", lambda: sim.symmetry(), 560, 10000))

from gens import pair
prop("P12", "a pair with distinct tokens, a non-zero amount and a price, put through every law", "algebraic laws and independent formulas over generated pairs",
     Sub("laws", "pairs:p12", lambda: pair.pair_case(), 4000, 100000, chunk=200))

from gens import oui
prop("P13", "an order with inventory, evaluated at several points inside and outside of its range", "curve functions against an exact 60-digit model, inverses and bounds",
     Sub("curve", "oui:p13", lambda: oui.curve_case(), 2400, 100000, chunk=100))
prop("P14", "a sequence with at least one trade, or a simulation with at least one trade", "histories on linked orders and price paths against an independent model",
     Sub("linked", "oui:p14", lambda: oui.linked_case(), 1200, 50000, chunk=60),
     Sub("path", "oui:p14_sim", lambda: oui.sim_case(), 240, 8000))
prop("P15", "an order with capacity that was converted through all descriptions including an SDK record or a constant product curve", "round trips between all descriptions of an order",
     Sub("descr", "oui:p15", lambda: oui.descr_case(), 900, 30000, chunk=30))

from gens import enc
prop("P16", "an order with inventory and a price range, or integers longer than the format, encoded and decoded", "round trips, bounds, monotonicity and stability of the integer formats",
     Sub("order", "enc:p16_order", lambda: enc.enc_case(), 2000, 100000, chunk=100),
     Sub("floatint", "enc:p16_cfi", lambda: enc.cfi_case(), 2000, 100000, chunk=100))
PROPS["P16"].append(Sub("bench", "bench:p16_bench", lambda: enc.enc_case(), 1200, 60000, mode="bench", chunk=60))
prop("P17", "an encoded order with at least one amount that gives a non-zero result", "integer functions against exact rational arithmetic, derived rounding bounds, monotonicity, round trips",
     Sub("int", "bench:p17_int", lambda: enc.trade_case(), 4000, 200000, mode="bench", chunk=100),
     Sub("spec", "bench:p17_spec", lambda: enc.spec_case(), 1200, 60000, mode="bench", chunk=60))
prop("P18", "at least one proposed action", "validity of the proposed actions, differential between the two matchers",
     Sub("match", "bench:p18", lambda: enc.match_case(), 1200, 60000, mode="bench", chunk=60))

from gens import cpc
prop("P19", "a curve evaluated at several points inside its bounds, or traded on", "every constructor, the amount functions and trades against an independent model",
     Sub("curve", "cpc:p19", lambda: cpc.curve_case(), 3200, 100000, chunk=100))
prop("P20", "a collection of at least two curves put through every selection and statistic", "selections and statistics recomputed from the members, inverters against the reversed curve",
     Sub("coll", "cpc:p20", lambda: cpc.coll_case(), 500, 20000, chunk=25))
prop("P23", "a collection of at least two curves, or of different kinds, written and read back", "round trips through every format",
     Sub("serial", "cpc:p23", lambda: cpc.serial_case(), 1200, 40000, chunk=60))

from gens import opt
prop("P21", "a set of curves from which the optimiser extracts a gain", "optimality conditions and differential against an independent model, invariance under order and quotation",
     Sub("margp", "opt:p21", lambda: opt.opt_case(), 480, 20000, chunk=30))
prop("P22", "a set of at least two curves from which the optimiser extracts a gain", "optimality conditions, differential between three optimisers, searches with known roots",
     Sub("simple", "opt:p22", lambda: opt.pair_case(), 400, 20000, chunk=25),
     Sub("convex", "opt:p22_convex", lambda: opt.convex_case(), 120, 4000, chunk=15),
     Sub("seek", "opt:p22_seek", lambda: opt.seek_case(), 800, 40000, chunk=100))

from gens import graph
prop("P24", "a connection graph with at least three edges and a cycle, or a history with at least one recorded transport or a cycle that was run", "graphs and histories of transports against a plain list of edges",
     Sub("conn", "graph:p24_conn", lambda: graph.conn_case(), 500, 30000, chunk=50),
     Sub("amount", "graph:p24_amt", lambda: graph.amt_case(), 700, 40000, chunk=50))

from gens import uni
prop("P25", "a position whose price lies inside its tick range, evaluated at at least one price", "ticks, prices and reserves against 80-digit arithmetic, differential against the constant product curve",
     Sub("pos", "uni:p25", lambda: uni.uni_case(), 3000, 150000, chunk=100))

from gens import sdk
prop("P26", "a call whose request was compared, a direction or market that exists, a strategy that was converted, a container with tokens", "requests recorded by a stand-in for the connection, answers and faults generated, compared with a table of endpoints and a model server",
     Sub("call", "sdk:calls", lambda: sdk.call_case(), 2000, 80000, chunk=100),
     Sub("market", "sdk:market", lambda: sdk.market_case(), 700, 30000, chunk=50),
     Sub("strat", "sdk:strategies", lambda: sdk.strat_case(), 600, 30000, chunk=50),
     Sub("token", "sdk:tokens", lambda: sdk.token_case(), 1200, 60000, chunk=100))

from gens import strat
prop("P27", "a strategy that was built and rescaled, a path with at least one interpolated point, records that differ", "constructors against their documented formulas, orders made from them, simulation differential against Uniswap v3 formulas, path invariants and statistics",
     Sub("strat", "strat:strat", lambda: strat.strategy_case(), 1000, 40000, chunk=50),
     Sub("path", "strat:path", lambda: strat.path_case(), 400, 15000, chunk=25),
     Sub("rec", "strat:records", lambda: strat.rec_case(), 600, 20000, chunk=50))

from gens import ana
prop("P28", "an order book of at least three sizes, vectors of at least two values", "every size traded on a copy of the book, independent optimum, definitions of the charts, order books with holes and tails",
     Sub("book", "ana:book", lambda: ana.ana_case(), 300, 12000, chunk=15),
     Sub("vec", "ana:vectors", lambda: ana.vec_case(), 800, 40000, chunk=50))

from gens import helpers as hlp
prop("P29", "a history of at least three operations, versions that differ, a file that is not empty, a window that excludes something", "histories against plain dictionaries and numbers, round trips through files, windows against a direct filter",
     Sub("params", "helpers:params", lambda: hlp.params_case(), 1200, 60000, chunk=100),
     Sub("shared", "helpers:shared", lambda: hlp.shared_case(), 1500, 80000, chunk=100),
     Sub("version", "helpers:version", lambda: hlp.version_case(), 800, 30000, chunk=100),
     Sub("files", "helpers:files", lambda: hlp.file_case(), 500, 20000, chunk=50),
     Sub("window", "helpers:window", lambda: hlp.window_case(), 700, 30000, chunk=50),
     Sub("controls", "helpers:controls", lambda: hlp.control_case(), 300, 12000, chunk=30),
     Sub("pairs", "helpers:pairs", lambda: hlp.pair_case(), 1000, 50000, chunk=100))

from gens import ccy
prop("P30", "a history with a hit and a miss, or a query besides; data for at least two pairs and times; a list of at least two items", "histories of queries, cache reads and faults against a model server and a model of the cache, tables against the candles served",
     Sub("hist", "ccy:hist", lambda: ccy.hist_case(), 400, 20000, chunk=25),
     Sub("aggr", "ccy:aggr", lambda: ccy.aggr_case(), 240, 10000, chunk=15),
     Sub("text", "ccy:text", lambda: ccy.text_case(), 800, 30000, chunk=100))
