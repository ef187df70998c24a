MC = "model_checking"
CONF = "every explored execution runs on the real keeper and application stores; the oracle is compared after every step, so each model trace is replayed on the implementation"
CLAIMS = {
 "E01": (MC, "exhaustive enumeration of bounded call trees on the real keeper, against go-ethereum's StateDB as reference model", "All call trees up to the stated number of nodes over the stated operations; " + CONF + ". Trusts go-ethereum's interpreter and StateDB as the rules."),
 "E02": (MC, "exhaustive enumeration of execution histories on the real keeper, against go-ethereum's StateDB as reference model", "All histories up to the stated length over the stated executions; " + CONF + "."),
 "E03": (MC, "exhaustive enumeration of execution histories and transient call trees on the real keeper, against go-ethereum's StateDB as reference model", "All histories and trees within the stated bounds; gas is compared exactly so leaked warm/refund state is seen; " + CONF + "."),
 "E04": (MC, "exhaustive enumeration of creation/destruction call trees and histories on the real keeper, against go-ethereum's StateDB as reference model", "All trees and histories within the stated bounds; " + CONF + "."),
 "E05": (MC, "exhaustive enumeration of system-contract call trees and histories on the real keeper, against a reference model of registry, holders, accounts and message queue", "All call trees up to the stated number of nodes and all pairs of short executions; " + CONF + "."),
 "E06": (MC, "exhaustive enumeration of message-queueing call trees on the real keeper, against a reference model of signer rule, order and gas", "All call trees up to the stated number of nodes, all signer shapes, and a grid of gas limits; " + CONF + "."),
 "E07": (MC, "exhaustive enumeration of programs run through every read-only door of the real keeper (static frames, contract query, simulation, views), with store digests before and after", "All programs within the stated bounds; " + CONF + "."),
 "E08": (MC, "exhaustive enumeration of query histories and of all interleavings (bounded deviations) of concurrent queries on the real system contract, against a freshly built node's answers", "All query sequences up to the stated length, every route of the node, all schedules within the stated deviation bound; " + CONF + "."),
 "E09": (MC, "exhaustive enumeration of call trees times gas limits on the real keeper against go-ethereum's gas accounting, and a scan of every gas amount around each system-contract method's cost", "All trees up to the stated size at the stated gas limits; " + CONF + "."),
 "E10": (MC, "exhaustive enumeration of environments times call shapes, and of all retention-setting histories, on the real keeper and through real blocks, against a reference model of the context", "All combinations of the stated heights, times, chains, decimals, prices and call shapes; all histories of retention settings up to the stated number of blocks; real blocks across the 256-block window; " + CONF + "."),
 "B01": (MC, "exhaustive enumeration of token operation sequences over every value-moving route of the real chain, against a reference ledger", "All sequences up to the stated depth over the stated routes, five tokens and six holders; " + CONF + "."),
 "B02": (MC, "exhaustive enumeration of token operation sequences, comparing every bank query at every page size and direction with the token contracts, and of hostile token behaviours", "All sequences up to the stated depth; all page sizes, keys and offsets; all pairs of hostile tokens; " + CONF + "."),
 "B03": (MC, "exhaustive enumeration of denomination-creating operation sequences and malformed denominations on the real chain, against a reference binding", "All sequences up to the stated depth; " + CONF + "."),
 "B04": (MC, "exhaustive enumeration of callers times token entry points times operand choices, and of sequences, against a reference rule table", "The full grid and all sequences up to the stated depth; " + CONF + "."),
 "B05": (MC, "exhaustive enumeration of real bank-send transactions (settings, recipients, coin lists) and of settings histories, against a reference ledger", "All coin lists up to the stated length for every recipient and setting, delivered as signed transactions; all settings histories up to the stated length; " + CONF + "."),
 "B06": (MC, "exhaustive enumeration of registry operation sequences (settings, callers, call kinds, factory, constructors) against a reference registry", "All sequences up to the stated depth; " + CONF + "."),
 "B07": (MC, "exhaustive enumeration of burned coin lists and list pairs against a reference ledger", "All ordered lists of up to three coins and pairs of lists within the stated bounds; " + CONF + "."),
 "A01": (MC, "exhaustive enumeration of sequences of sends, calls, deployments and signed transactions among colliding short and longer addresses on the real chain, against a reference ownership model", "All sequences up to the stated depth; " + CONF + "."),
 "A02": (MC, "exhaustive enumeration of sequences of account-creating, -changing and -destroying operations on the real chain, with an invariant monitor over all accounts after each step", "All sequences up to the stated depth; the monitor reads every account and the number index after each step; " + CONF + "."),
 "T01": (MC, "exhaustive enumeration of signed Ethereum transactions over boundary field values, converted to chain form, encoded, and back through the real converters", "The full product of the stated field values; both directions run on the real code and are compared field by field with the transaction that was signed."),
 "T02": (MC, "exhaustive enumeration of single and paired alterations of eth-signed transactions, delivered through the real ante chain and message handlers, against the signed content", "Every single alteration and every pair of the stated alterations for every transaction kind; " + CONF + "."),
 "T03": (MC, "exhaustive enumeration of transaction sequences (kinds, outcomes, replays) through real blocks, against a reference model of sequences", "All sequences up to the stated length over the stated transaction kinds; " + CONF + "."),
 "T04": (MC, "exhaustive enumeration of fee, gas, payer, price, ratio and outcome combinations delivered through real blocks, against a reference ledger", "The full product of the stated values; " + CONF + "."),
 "T05": (MC, "exhaustive enumeration of multi-message transactions with each message failing in turn, delivered through the real chain, comparing every store with the state before", "All message lists up to the stated length with every failing position and all neighbouring transactions; " + CONF + "."),
 "T06": (MC, "exhaustive enumeration of decimals settings times boundary amounts through the real converters, against exact integer arithmetic", "Every decimals value 0..255 times the stated amounts, in both directions and through the fee token contract; " + CONF + "."),
 "C01": (MC, "exhaustive enumeration of settings updates (every change of every field, all pairs together and in sequence) and of every authority message times every caller and route, on the real chain, against a reference rule table", "All single changes, all pairs across fields, and all ordered pairs of the stated sequences; after each accepted update executions are run under it; " + CONF + "."),
 "C02": (MC, "exhaustive enumeration of publisher lists times deployment routes, and of list replacements, on the real chain, against a reference permission model", "All stated lists and routes (direct, signed, Ethereum-signed, authorised, queued by a contract) and all pairs of lists; " + CONF + "."),
 "N01": (MC, "exhaustive enumeration of sequences of class, mint, move, burn, approval, direct-call and packet operations on the real chain, against a reference registry of classes and owners", "All sequences up to the stated depth, with every class, owner, balance, data and identifier read back in every distinct state; " + CONF + "."),
 "I01": (MC, "exhaustive enumeration of sequences of received packets (token and NFT, every call shape, permission and outcome) through the real IBC message handler and middleware stack, against a reference ledger of balances, allowances, owners and recorded calls", "All packet sequences up to the stated depth, and every unreadable or mixed memo of the stated alphabet; " + CONF + ". The remote chain is played by the other end of a local channel."),
 "I02": (MC, "exhaustive enumeration of packet outcomes times memos, permissions, contracts and senders through the real IBC message handlers, against the state of the same packet without a callback followed by the call itself", "The full product of the stated values, and signed relayer transactions over a grid of gas limits; " + CONF + "."),
 "X03": (MC, "exhaustive enumeration of operation sequences on the real caching store (values of every size class, colliding keys, flushes, restarts), and of all interleavings (bounded deviations) of concurrent operations under a controlled scheduler, against a map and its linearizations", "All sequences up to the stated depth; all thread scripts and schedules within the stated bounds, with a scheduling point at every statement of the store; " + CONF + "."),
 "X04": (MC, "exhaustive exploration of delay-bounded schedules of the real indexer and filter code (rewritten onto a controlled scheduler) over block and log patterns times subscribers that read, stall, come late or leave", "All schedules within the stated number of deviations for every stated case; what each subscriber got is compared with the blocks indexed; what pooled indexers show is confirmed on fresh ones."),
 "J02": (MC, "exhaustive exploration of delay-bounded schedules of the real polling-filter code with virtual time, over filter kinds, installs, polls, removals, timeouts and blocks", "All schedules within the stated number of deviations for every stated script; every poll's answer is compared with a reference model of the filter."),
 "J03": (MC, "exhaustive enumeration of arrival orders of signed transactions with nonce gaps, duplicates, refusals and blocks, and of delay-bounded schedules of concurrent senders, through the real SendRawTransaction path", "All sequences and schedules within the stated bounds, against a reference model of the mempool and the per-sender queue."),
 "J05": (MC, "exhaustive exploration of delay-bounded schedules of mempool insertions and subscribers, and exhaustive enumeration of sequences of transactions, blocks and rechecks on the real node, against a reference mempool", "All schedules within the stated number of deviations and all sequences up to the stated length; every pending listing, pool content, status, pending nonce and event is compared; " + CONF + "."),
 "X01": (MC, "exhaustive enumeration of block histories (transactions that succeed, fail, are rejected, repeat, create, or are no Ethereum transactions) through the real node, comparing the whole index and the event stream with what was executed", "All single blocks of up to two transactions over twenty kinds, of three over a smaller set, and all stated multi-block histories; " + CONF + "."),
 "J01": (MC, "exhaustive enumeration of log queries (ranges, block hashes, address sets, topic patterns) over bounded chains, and of delay-bounded schedules of the scanner, against brute-force matching of the logs executed", "All stated queries over all stated chains by both query routes; all schedules within the stated number of deviations; " + CONF + "."),
 "J04": (MC, "exhaustive enumeration of block selectors times accounts, slots, positions and transaction hashes over bounded chains with changing fee tokens, against the state recorded at each commit", "Every selector of every block of every stated chain; " + CONF + "."),
 "J06": (MC, "exhaustive enumeration of fee-history queries and pairs of queries over bounded chains, and of delay-bounded schedules of the concurrent block fetchers, against each block's own header and transactions", "All stated ranges, selectors and percentile lists; all schedules within the stated number of deviations; " + CONF + "."),
 "X02": (MC, "exhaustive enumeration of crash points (every prefix of the disk writes of each block's index, and of the writes while indexing it again) over bounded block histories on the real indexer, and restarts of the real node, against the index without a crash", "Every write of every block of every stated history, twice nested (three times when thorough); the recovered index is compared entry by entry; " + CONF + "."),
 "G01": (MC, "exhaustive enumeration of histories of token, NFT, contract and settings operations on the real chain, each exported, imported into an empty chain and compared, with every operation tried on both afterwards", "All sequences up to the stated depth over the stated operations; after the import the contract state, a second export of every module and the outcome and gas of every further operation are compared; whole nodes are exported and started for the stated histories; " + CONF + "."),
 "D01": (MC, "exhaustive enumeration of blocks times what a node serves meanwhile times where (every function the execution enters), on pairs of real nodes with opposite map orders and clocks, against a node that only executes", "All stated transactions with every disturbance at every function of the consensus code that is entered and at every stated place of real blocks, and all pairs of transactions in a block with all disturbances; application hash, results, gas and events are compared; " + CONF + "."),
 "T07": (MC, "exhaustive enumeration of execution messages (kind, route, value, input, access list, target spelling, salt) delivered to the real chain, against what the message states", "The full product of the stated values; what the execution saw (caller, origin, value, input, warm accesses, balances) and what the response says are compared field by field."),
}
NOT_APPLICABLE = {}
