"""writes /verif/properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


SIM = "carbon/simulators/carbon_simulator.py"
prop("P01", "Trades settle exactly what they report",
     "An executed trade changes exactly the orders it reports: each order on its route loses the reported amount of the token sold, and the order linked to it gains exactly the reported amount paid, its capacity growing only when the new inventory exceeds it. "
     "The totals reported for the trade are the sums over its routes, and its price is the ratio of the totals in the price convention of the pair. "
     "A quote, a refused request and a trade that misses its limit change no order.",
     ["histories", "inputs"], "all books (any number of makers, pairs, price conventions, ranges including constant prices, partially filled orders) and all sequences of quotes and trades, for the exact, the fast and the alpha router",
     "The tests replay some dozens of fixed books and mostly print or compare one total; none compares the reported amounts with the change of every order after every step of a history.",
     [SIM], [("settlement of the routes on the orders and their linked orders", SIM + " _trade"), ("linked order credit and capacity growth", SIM + " _trade")],
     [("order inventory and capacity", "what each order holds and can hold", "carbon/order.py"), ("trade log", "all routes and aggregates reported so far", SIM)],
     ["result of amm_sells/amm_buys/trader_buys/trader_sells", "state()"])
prop("P02", "Orders stay valid whatever happens to them",
     "After every step of every history each order holds at least nothing and at most its capacity, and no trade ever takes more out of an order than it held. "
     "Capacity never shrinks, and when it grows it equals the inventory that overfilled it. "
     "The token, pair, price range and link of an order never change, and adding or deleting one strategy leaves all other orders untouched.",
     ["histories"], "all interleavings of adding, deleting, quoting and trading",
     "Tests check a few end states; an invariant over histories needs sequences in which orders are emptied, overfilled, deleted and traded again.",
     [SIM, "carbon/order.py"], [("capacity update when overfilled", SIM + " _trade"), ("router caps at available inventory", "carbon/routers/exact_base_router.py match; carbon/routers/fast_router.py"), ("delete_order", SIM)],
     [("y, y_int, range, link", "state of one order", "carbon/order.py")], ["state()"])
prop("P03", "Every fill lies on the bonding curve of the order that gave it",
     "An order whose capacity is z and whose range runs from p_start to p_end trades along one fixed curve: its marginal price is p_start when full and p_end when empty, and the square root of the price moves linearly with its inventory. "
     "The amounts of every route of every trade are the two ends of that curve between the inventories before and after, whatever router, direction or state of the order. "
     "In particular an order never trades outside its range.",
     ["inputs", "histories"], "all orders (narrow, wide, constant price, tiny and huge capacities, partially or over-filled), all trade sizes up to exhaustion, both directions, three routers",
     "The tests pin the result of about a hundred trades; the curve has to hold for every order and size, including capacities below one token and orders that were refilled.",
     ["carbon/order.py", "carbon/routers/exact_router_x0y0n.py", "carbon/routers/exact_base_router.py", "carbon/routers/fast_router.py", SIM],
     [("curve parameters of an order", "carbon/order.py n, x0, y0, B, S"), ("amounts in and out along the curve", "exact_base_router.py dxdy; fast_router.py amt_by_src, amt_by_target")],
     [], ["routes of the result of a trade, against the order before the trade"])
prop("P04", "Exact routing is the best possible split",
     "With exact routing no other division of the trade over the eligible orders gives the trader a better total. "
     "After the trade all orders used in part have the same marginal price, orders left unused start at no better price, and orders used up end at no worse price.",
     ["inputs", "configurations"], "all sets of eligible orders (overlapping, nested, disjoint, identical, constant-price ranges, any fill state) and all amounts up to the available liquidity, by source and by target",
     "Optimality is a statement about all alternative splits; the tests compare a few books with numbers computed once by the code itself.",
     ["carbon/routers/exact_base_router.py", "carbon/routers/exact_router_x0y0n.py"],
     [("active set iteration", "exact_base_router.py match"), ("closed form split", "exact_router_x0y0n.py amt_by_src, amt_by_target")], [], ["result of a trade with the exact router"])
prop("P05", "A trade is filled as asked or refused cleanly",
     "A request that names the amount bought delivers exactly that amount, a request that names the amount sold consumes exactly that amount, and it is refused, with nothing changed, if and only if the eligible orders cannot fill it. "
     "If partial fulfillment is asked for and liquidity is short, everything there is is traded; if it is not short, the trade is filled completely. "
     "The maker's and the trader's name for the same request, and a negative amount of the opposite request, have the same effect.",
     ["inputs", "histories"], "all amounts from dust to far beyond the liquidity, all routers, fill states and eligible sets, with and without partial fulfillment; the alpha router when its order limit does not bind",
     "Tests ask for a handful of amounts; the boundary at exhaustion, split trades and the two directions need generated books.",
     [SIM, "carbon/routers/exact_base_router.py", "carbon/routers/fast_router.py", "carbon/routers/alpha_router.py"],
     [("liquidity checks", "base_router.py sufficient_liquidity_exists; exact_base_router.py match; fast_router.py match"), ("flip of negative amounts, aliases", SIM + " amm_buys, amm_sells")], [], ["result of a trade", "state()"])
prop("P06", "No router beats exact routing, and alpha keeps its order limit",
     "For the same book and request neither the fast nor the alpha router ever gives the trader more than exact routing. "
     "The alpha router never uses more orders than its limit, is optimal for the orders it selects, equals exact routing when the limit is not binding, prefers the orders that offer most for the whole amount if they can fill it, and refuses only if no selection within the limit could fill the request. "
     "The fast router uses orders up one after the other, leaving at most one of them used in part.",
     ["inputs", "configurations"], "all books with several eligible orders, all amounts, all order limits from one to more than the number of orders",
     "A differential statement between three implementations over all books; the tests fix the order limits and books.",
     ["carbon/routers/alpha_router.py", "carbon/routers/fast_router.py", "carbon/routers/exact_base_router.py"],
     [("selection of orders", "alpha_router.py gen_one_order_selector, match_by_src, match_by_target"), ("greedy matching", "fast_router.py match")], [], ["results of the same request with three routers"])
prop("P07", "Limit orders execute exactly when the limit is met",
     "A trade with a limit price executes if and only if its effective price, in the convention of the pair, is the limit or better for the trader; otherwise it is reported as a limit failure and changes nothing. "
     "A limit stated as an amount of the other token is the same limit: at least that much is received, or at most that much is paid. "
     "When it executes, the amounts are those of the same request without a limit, and giving both limits is refused.",
     ["inputs", "configurations"], "all books, both directions, both tokens of the pair, all three routers, limits far away, within 1e-7, and exactly at the price",
     "The tests check some hundred fixed limit trades on constant books; which side of the limit is better depends on direction, token and convention together.",
     [SIM, "carbon/pair.py"], [("limit check", SIM + " _trade"), ("direction of the comparison", "carbon/pair.py limit_is_met")], [], ["exec and limitfail of the result", "state()"])
prop("P08", "Only eligible orders take part in a trade",
     "A trade is routed only through orders of the requested pair, in either quotation, that sell the token bought by the trader, are not disabled, are not empty, and are among the positions the caller allowed; each at most once. "
     "All other orders in the book, on other pairs, on the opposite side, disabled, empty or not allowed, have no influence on amounts, price or success. "
     "If no order is eligible the request is refused.",
     ["inputs", "configurations"], "all books over several pairs, all selections of positions including empty, unknown and partial ones",
     "Non-interference quantifies over everything else in the book; tests use clean single-pair books.",
     [SIM], [("filter of applicable orders", SIM + " _trade"), ("use_positions", SIM)], [], ["routes of a trade result", "the same request against books with and without unrelated orders"])
prop("P09", "Trading is path independent and there is no free lunch",
     "Trading an amount in pieces in one direction gives, with exact routing, the same totals and the same book as trading it at once. "
     "From a book in which no order bids above another's ask, no sequence of trades leaves the trader with a gain in one token without a loss in the other, and no strategy is worth less than before at a price between the bids and the asks.",
     ["histories"], "all books without crossed orders, all sequences of trades in both directions including trading everything back",
     "A statement about all sequences; tests perform single trades.",
     [SIM, "carbon/routers/exact_base_router.py"], [("bonding curve invariants", "carbon/order.py"), ("crediting of the linked order", SIM + " _trade")], [], ["amounts of successive trades", "state()"])
prop("P10", "Strategies are added, reported and removed as a whole",
     "Adding a strategy creates exactly two orders with fresh ids, linked to each other, with the tokens, amounts, capacities, marginal prices and ranges that were asked for (bounds in either order, unspecified sides disabled); an invalid strategy is refused and leaves nothing behind. "
     "Deleting one order deletes exactly it and its linked order and reports them. "
     "The reported state, liquidity, counts and trade log describe exactly the book and the trades that happened, in the convention of each pair, and asking for them changes nothing.",
     ["histories", "inputs"], "all histories of adding (valid and invalid), trading and deleting over several pairs and quotations",
     "Tests look at the table printed for a few strategies; identity, linkage and completeness of reports have to hold after any history.",
     [SIM, "carbon/order.py", "carbon/carbon_order_ui.py"], [("add_strategy, add_order, _add_order_sell_tkn", SIM), ("delete_order", SIM), ("state, liquidity", SIM)],
     [("orders", "the book", SIM), ("trades", "the trade log", SIM)], ["state()", "liquidity()", "results"])
prop("P11", "Quotes do not depend on how the market is written down",
     "Quoting the pair the other way round, entering the same makers from the other token, renaming the tokens, or (for exact routing) entering the makers in another order leaves the amounts of every trade unchanged and converts its price accordingly. "
     "Scaling the unit of one token, or all sizes, scales amounts and prices accordingly.",
     ["inputs", "configurations"], "all books and requests, under each of these transformations",
     "Symmetries relate pairs of runs; no test runs the same book in two notations except for one or two fixed examples.",
     [SIM, "carbon/pair.py", "carbon/order.py"], [("conversion of prices between conventions", "carbon/pair.py convert_price"), ("curve parameters", "carbon/order.py")], [], ["results of the original and the transformed request"])
PAIR = "carbon/pair.py"
prop("P12", "Token pairs convert amounts, prices and limits consistently",
     "A pair knows its base and quote token however it was created, and reversing it twice gives it back; converting an amount from one token to the other and back is the identity, and an amount converts the same way in a pair and in its reverse at the inverse price. "
     "Converting a price to the other numeraire inverts it and doing so twice is the identity; tokens outside the pair give no result. "
     "A limit is met exactly when the price is the limit or better for whoever placed the order, buying and selling one token mirror each other, and so do the two tokens.",
     ["inputs"], "all token names, prices, amounts, and ways to create a pair",
     "Tests evaluate the functions on one or two pairs; the laws quantify over prices, tokens, directions and constructors.",
     [PAIR], [("convert, price, convert_price, limit_is_met, reverse, constructors", PAIR)], [], ["return values"])
OUI = "carbon/carbon_order_ui.py"
prop("P13", "The order view's curve functions describe one curve",
     "For an order described by its range, capacity and inventory, all curve functions agree with the bonding curve through those parameters: they are inverse to each other where they are stated to be inverses, and monotone. "
     "Amounts outside the order's inventory or prices outside its range give no result rather than a wrong one. "
     "Marginal and effective prices lie within the range.",
     ["inputs"], "all ranges, capacities, fill states, amounts and prices, for both tokens of the pair",
     "The tests evaluate the functions at a few points of a few curves.",
     [OUI], [("yfromx_f, xfromy_f, dyfromdx_f, dxfromdy_f, dyfromp_f, ...", OUI)], [], ["return values"])
prop("P14", "Trading through the order view moves along the curves and conserves tokens",
     "Trading a linked pair of order views to a price leaves the order on the right side of the market with exactly that marginal price (or empty, or untouched if the price is not reached), moving each token by exactly the amounts it reports. "
     "What one order sells the other receives, by amount or by price, and a trade that is only asked for, not executed, changes nothing. "
     "Following a price path, the strategy's inventories, value and marginal prices reported at each step are those of this process.",
     ["histories", "inputs"], "all linked orders and all sequences of prices and amounts",
     "Tests run two fixed strategies over short paths.",
     [OUI, "carbon/helpers/simulation.py"], [("tradeto, buyx, selly, addliqy", OUI), ("run_sim", "carbon/helpers/simulation.py")], [], ["return values", "state of the orders", "simulation results"])
prop("P15", "All descriptions of an order agree",
     "An order built from its prices, from its curve parameters, from a simulator order or from an SDK record, or converted to one of these and back, is the same order: same token, pair, range, capacity, inventory and marginal price. "
     "Inconsistent or incomplete descriptions are rejected.",
     ["inputs"], "all ranges, fill states, tokens, decimals and descriptions",
     "Tests convert one or two orders.",
     [OUI, "carbon/sdk/carbonsdk0.py", "carbon/order.py"], [("from_prices, from_BSy, from_Qxy, from_order, from_SDK, goalseek", OUI)], [], ["attributes of the resulting objects"])
prop("P16", "Encoded rates and orders decode to what was encoded",
     "Encoding a rate, a float or an order into the integer formats of the contracts and decoding it again gives back the value to the relative precision of the format, never above it where the format rounds down, and encoding is monotone. "
     "Decoding and encoding again is stable, and values that do not fit are rejected.",
     ["inputs"], "all rates over the whole range of the format, all liquidity, capacity and range combinations of an order",
     "Tests encode a dozen values; precision and monotonicity are statements about all of them.",
     ["carbon/sdk/carbonsdk0.py", "carbon/sdk/sdkbase.py", "benchmark/core/trade/impl.py", "carbon/helpers/floatint.py"],
     [("EncodedOrder", "carbon/sdk/carbonsdk0.py"), ("encode/decode of rates and orders", "benchmark/core/trade/impl.py"), ("CarbonFloatInt", "carbon/helpers/floatint.py")], [], ["return values"])
prop("P17", "The integer trade functions follow the specification and never favour the trader",
     "For every encoded order and amount the integer implementation of a trade by source returns at most, and of a trade by target asks for at least, what the exact specification gives, and differs from it by no more than the rounding of the format. "
     "Beyond that rounding, larger inputs never give smaller outputs, trading forth and back never pays out more than was paid in, and amounts that overflow the contract's number types are rejected rather than wrapped.",
     ["inputs"], "all encoded orders and amounts over the full width of the number types",
     "The benchmark runs fixed files of examples and prints deviations.",
     ["benchmark/core/trade/impl.py", "benchmark/core/trade/spec.py"], [("tradeBySourceAmount, tradeByTargetAmount", "benchmark/core/trade/impl.py"), ("exact formulas", "benchmark/core/trade/spec.py")], [], ["return values"])
prop("P18", "Matching splits an amount validly, and best is no worse than fast",
     "The actions proposed for an amount use each order at most once, are each exactly what trading that order alone would give, never exceed an order's liquidity, and together add up to the requested amount, or to all there is if it is not enough. "
     "The optimising matcher never gives the trader less than the greedy one, beyond rounding.",
     ["inputs", "configurations"], "all sets of encoded orders and all amounts, by source and by target",
     "The benchmark replays fixed books and only stores the results.",
     ["benchmark/core/match/impl.py"], [("matchBySourceFast/Best, matchByTargetFast/Best", "benchmark/core/match/impl.py")], [], ["list of proposed actions"])
CPC = "carbon/tools/cpc.py"
prop("P19", "Constant product curves keep their invariant and bounds",
     "Every way to create a curve yields one whose actual and virtual balances, invariant, price and bounds are consistent with each other and with the parameters given; the Uniswap and Carbon constructors reject incomplete or contradictory parameters. "
     "The curve's amount functions keep the invariant and are inverse to each other, executed trades return the curve after the trade, and trades beyond the available balances or bounds are refused unless that check is explicitly waived.",
     ["inputs"], "all prices, balances, invariants, bounds, fees and constructors",
     "The tests create a few dozen curves and check attributes numerically.",
     [CPC], [("ConstantProductCurve constructors, xfromy_f, yfromx_f, dyfromdx_f, dxfromdy_f, execute", CPC)], [], ["attributes and return values"])
prop("P20", "Curve collections, searches and inverters agree with the curves in them",
     "Selecting, filtering and grouping curves by pair or token returns exactly the curves that qualify, and statistics over the collection are those of its members. "
     "The market price of a pair is the mean price, in the primary quotation, of exactly its curves (inverted for the reverse quotation); price estimates are the averages, weighted by liquidity, of the matching curves that are not at a boundary, in the requested quotation; every curve of a collection uses the collection's token scale, however it got there; tables report the members' own figures; and an inverted curve describes the same market with base and quote token exchanged.",
     ["inputs", "configurations"], "all collections over several pairs in both quotations, all queries",
     "Tests query three fixed collections.",
     [CPC, "carbon/tools/simplepair.py"], [("CPCContainer.bypairs, filter, pairs, tokens, price, ...", CPC), ("CPCInverter", CPC), ("SimplePair", "carbon/tools/simplepair.py")], [], ["return values"])
OPT = "carbon/tools/optimizer.py"
prop("P21", "The marginal price optimiser finds the arbitrage equilibrium",
     "At the prices it returns, no curve can be traded profitably any more and every token except the target token nets out to zero, so that the profit is the whole surplus in the target token and is never negative. "
     "The trade instructions, token totals, prices and new curves it reports describe the same set of trades, each on its own curve, and the optimum does not depend on the order or quotation of the curves.",
     ["inputs", "configurations"], "all connected sets of curves (constant product and concentrated) over two to four tokens, all target tokens",
     "Tests run a few fixed sets and check that a result is produced.",
     [OPT, CPC], [("margp_optimizer", OPT), ("TradeInstruction, adjust_curves", OPT)], [], ["result object", "trade instructions", "new curves"])
prop("P22", "The simple and convex optimisers agree with the equilibrium",
     "For one pair of tokens the simple optimiser extracts the full arbitrage value in the chosen token while the other token nets out to zero, and its reported price is the common marginal price of all curves within their bounds. "
     "It agrees with the marginal price optimiser wherever both apply, and the convex optimiser agrees with them up to solver tolerance.",
     ["inputs", "configurations"], "all sets of curves over one pair, both target tokens",
     "Tests compare two or three fixed examples.",
     [OPT], [("simple_optimizer, goalseek, nofees_optimizer", OPT)], [], ["result objects"])
prop("P23", "Curves survive serialisation",
     "A curve or a collection written to dictionaries, a data frame, JSON or a CSV, pickle or Excel-like table and read back is the same collection: same curves in the same order, with the same invariants, balances, bounds, pairs, ids, fees, descriptions and parameters.",
     ["inputs"], "all curves and collections, all formats",
     "Tests round-trip one collection of similar curves.",
     [CPC], [("asdict/from_dict, asdicts/from_dicts, asdf/from_df", CPC)], [], ["the collection read back"])
GR = "carbon/tools/arbgraphs.py"
prop("P24", "Arbitrage graphs price, transport and enumerate faithfully",
     "A graph built from curves or edges quotes a path at the product of its edges' prices, which for a closed cycle is its arbitrage factor, and the enumerated cycles are exactly the simple cycles of the graph, each once. "
     "Amounts transported along edges and cycles follow edge prices and capacities and conserve tokens at every node, and a duplicated or consolidated graph has the same nodes, edges, prices and capacities.",
     ["inputs", "configurations", "histories"], "all multigraphs over a few nodes, of both edge types, all amounts and sequences of transports",
     "Tests inspect two fixed graphs.",
     [GR], [("ArbGraph.price, cycles, run_arbitrage_cycle, transport, duplicate, add_edges_cpc; Edge, Path, Cycle, Amount", GR)], [("edge and node state", "what has flown so far", GR)], ["return values", "graph state"])
prop("P25", "Uniswap v3 positions are computed as in the protocol",
     "Ticks, prices and square root prices convert to each other as in the protocol, with decimals accounted for. "
     "The reserves derived from liquidity, price and range are those of the protocol, are continuous and monotone in the price, and the constant product curve built from the same position has the same price, bounds and reserves.",
     ["inputs"], "all ticks, liquidities, decimals and tick spacings",
     "Tests compare three pools.",
     ["carbon/tools/univ3calc.py", CPC], [("Univ3Calculator", "carbon/tools/univ3calc.py"), ("from_univ3", CPC)], [], ["return values"])
SDK = "carbon/sdk/carbonsdk.py"
prop("P26", "The SDK layer sends what was asked and converts what comes back",
     "Every SDK function sends exactly one request (an overview one for each of its figures), to the endpoint of that name under the URL, path and token it was set up with, whose parameters are the caller's values with tokens resolved to their addresses and nothing dropped, altered or invented. Arguments it refuses are never sent. "
     "Errors of the server surface as errors, and strategies coming back convert into orders with the prices, budgets and tokens of the record.",
     ["inputs", "fault_sequences"], "all functions, token pairs, amounts, options and server answers including errors and malformed ones",
     "The SDK needs a server; the tests only check encoding and object creation.",
     [SDK, "carbon/sdk/sdkbase.py", "carbon/sdk/carbonsdk0.py", "carbon/sdk/sdktoken.py"], [("request layer", "carbon/sdk/sdkbase.py"), ("API functions", "carbon/sdk/carbonsdk0.py, carbonsdk.py"), ("tokens", "carbon/sdk/sdktoken.py")], [], ["requests sent", "return values"])
prop("P27", "Simulation strategies, paths and results are consistent",
     "A strategy described by mid price, gap and width or by slopes has exactly the ranges the description implies, and rescaling it to a new price scales all of them by the same factor. "
     "Interpolating a price path keeps every original point and stays within its neighbours' scale, and a generated path starts where asked and follows its stated parameters.",
     ["inputs"], "all parameters, all paths",
     "Tests check two strategies and one path; paths are random.",
     ["carbon/helpers/strategym.py", "carbon/helpers/pathinterpolation.py", "carbon/helpers/pathgenerator.py"], [("strategy constructors, rescale", "carbon/helpers/strategym.py"), ("PathInterpolation", "carbon/helpers/pathinterpolation.py"), ("PathGenerator", "carbon/helpers/pathgenerator.py")], [], ["return values"])
prop("P28", "Order book analytics describe the book without touching it",
     "The order book's price and depth functions are those obtained by actually trading each size against the book: marginal prices are non-improving in size, average prices lie between the first and the last marginal price, and liquidity adds up. "
     "The approximate liquidity between two prices is what the orders sell between them, and no analysis changes the book.",
     ["inputs", "configurations"], "all books, both sides, all sizes",
     "Tests compare charts and a few numbers.",
     ["carbon/simulators/sim_analytics.py"], [("OrderBook, Analytics", "carbon/simulators/sim_analytics.py")], [], ["return values", "state()"])
prop("P29", "The helpers keep their word",
     "Parameter sets read like dictionaries with defaults, never lose or alter values when defaults, updates or copies are made, and an existing value is not replaced by accident; version requirements compare like version numbers. "
     "A shared variable behaves in every arithmetic and comparison like the number it holds, with all holders seeing updates, data written to files is read back unchanged, compressed or not, and sliders, pairs and comparisons reflect every value given to them.",
     ["inputs", "histories"], "all values, keys, versions, operations and their sequences",
     "Tests check some operations on a few values.",
     ["carbon/tools/params.py", "carbon/helpers/sharedvar.py", "carbon/helpers/version.py", "carbon/helpers/fls.py", "carbon/helpers/pdread.py"],
     [("Params", "carbon/tools/params.py"), ("SharedVar", "carbon/helpers/sharedvar.py"), ("require_version", "carbon/helpers/version.py"), ("fsave, fload", "carbon/helpers/fls.py")], [], ["return values", "files in a scratch folder"])
prop("P30", "The market data client asks as requested and never corrupts its cache",
     "Every query of the market data client sends one request to the right endpoint with exactly the arguments given, and returns the answer unaltered, as data or as a table with the right columns, times and pairs; aggregate tables hold every value served under the right pair and field. "
     "A cached item is returned unchanged without a request; a miss is queried, and written to the cache, only as requested; a failed query raises or returns None as configured and is never written to the cache.",
     ["inputs", "histories", "faults"], "all histories of queries, cache accesses, server changes and faults; all pairs, fields, frequencies and options",
     "No test covers the client.",
     ["carbon/helpers/cryptocompare.py"], [("CryptoCompare", "carbon/helpers/cryptocompare.py")], [], ["requests seen by a stand-in for the connection", "return values", "files in a scratch folder"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
