#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---------------- EVM execution state
p("E01","Reverted call frames undo exactly their own state changes",
 "When an EVM call or contract-creation frame reverts or fails, every change made inside it (storage, transient storage, nonces, code, value transfers, logs, refund counter, warm addresses and slots, self-destructs, created contracts) disappears, and every change made by surrounding frames before or after it stays; the state after the transaction is exactly the one Ethereum's rules give for the frames that succeeded.",
 ["programs","histories"],"every call tree of the bounded program alphabet: any nesting, any order of state-changing instructions, any choice of which frames revert or fail",
 "The unit tests take one snapshot and revert it once or twice with a fixed pattern of writes; they cannot cover nested frames where writes follow an inner revert.",
 ["x/evm/state/statedb.go","x/evm/state/snapshot.go","x/evm/keeper/context.go"],
 [("snapshot stack over cached stores","x/evm/state/statedb.go"),("commit of the snapshot stack in reverse order","x/evm/state/statedb.go")],
 ["contract storage, code, account nonces and balances, logs after a message"])
p("E02","A successful execution persists all of its effects, exactly once",
 "After a contract call or creation succeeds, a later execution, a state query and the chain's committed store all see exactly the storage, code, nonce, balance and log effects of its successful frames, with an overwritten slot holding its last value and untouched accounts unchanged.",
 ["programs","histories"],"every bounded sequence of executions, each any program of the alphabet, on accounts and slots that collide",
 "Tests commit a handful of independent writes; they do not sequence executions over shared slots, re-created contracts and zeroed slots.",
 ["x/evm/state/statedb.go","x/evm/state/snapshot.go","x/evm/keeper/context.go","x/evm/keeper/query_server.go"],
 [("commit writes snapshots, stores logs, removes destructed contracts","x/evm/state/statedb.go")])
p("E03","Per-execution EVM state never leaks between executions or contracts",
 "Transient storage is private to one contract and is empty at the start of every execution; likewise warm addresses and slots, the refund counter, logs, and the set of contracts created or destroyed always start empty, whatever earlier executions in the same block or transaction did and whether they succeeded.",
 ["programs","histories"],"every bounded sequence of executions in one block, and every pair of contracts using the same transient slot",
 "Tests run one execution per context; isolation between executions and between contracts with equal keys is never exercised.",
 ["x/evm/state/statedb.go","x/evm/state/keys.go","x/evm/keeper/context.go"],
 [("execution index prefix in the transient collections","x/evm/state/statedb.go")])
p("E04","Contract destruction and creation follow the same-transaction rule",
 "A self-destructing contract hands its whole balance to the beneficiary immediately; its code, storage and nonce vanish at the end of the execution only if it was created in that same execution, and otherwise stay intact; a creation onto an address that already has code or a nonce fails without touching it, and a new contract starts with nonce one, empty storage and its deployed code.",
 ["programs"],"every bounded program mixing create, create2, self-destruct, calls into the destroyed contract, and reverts around them",
 "Tests destroy one contract in isolation; creation, destruction, re-entry and revert of the destroying frame are never combined.",
 ["x/evm/state/statedb.go","x/evm/state/snapshot.go"],
 [("self-destruct mark and created mark in transient storage","x/evm/state/statedb.go")])
p("E05","System-contract effects follow the frame that requested them",
 "Effects a contract requests through the system contracts (registering a token or a holder, creating accounts, queueing chain messages) are kept if and only if every frame enclosing the request succeeds, are visible to later system-contract calls of the same execution, and a failing queued message undoes the whole execution.",
 ["programs","fault_sequences"],"every bounded call tree with system-contract calls at any depth, any subset of frames reverting, any queued message failing",
 "Tests call the system contracts directly or from one always-successful frame; no test reverts the frame after the request.",
 ["x/evm/precompiles","x/evm/keeper/precompiles.go","x/evm/keeper/context.go","x/evm/state/statedb.go"],
 [("precompile state context","x/evm/keeper/precompiles.go"),("deferred dispatch of queued messages","x/evm/keeper/context.go")])
p("E06","Queued chain messages act only for the contract that queued them",
 "A chain message a contract queues runs only if the calling contract is its sole required signer, runs after the call in the order queued and with gas drawn from the caller's transaction, and is rejected when it needs any other signer or none at all, whether reached by call, delegated call or nested call.",
 ["programs","inputs"],"every message type and signer combination of the alphabet through every call kind and nesting",
 "Tests check one accepted and one rejected message on a direct call only.",
 ["x/evm/precompiles/cosmos/contract.go","x/evm/keeper/context.go"],
 [("signer check","x/evm/precompiles/cosmos/contract.go"),("dispatch through the message router","x/evm/keeper/context.go")])
p("E07","Read-only execution never changes state",
 "A static call, a contract query, a gas estimation or simulation, and a system-contract view leave chain state exactly as it was, and a state-changing system-contract method reached under a static call fails.",
 ["programs","inputs"],"every system-contract method and state-changing program run under a static call at any nesting or through a query",
 "Tests check one method per precompile for read-only rejection; state equality after queries is not compared.",
 ["x/evm/precompiles","x/evm/keeper/context.go","x/evm/keeper/query_server.go"],
 [("read-only flag checks","x/evm/precompiles"),("queries run on a discarded cache","x/evm/keeper/query_server.go")])
p("E08","Contract-visible chain queries are limited to the whitelist and repeatable",
 "A contract can only query whitelisted chain paths, and the same query on the same state returns byte-identical results every time, independent of which queries, valid or malformed, ran before or run concurrently on the node.",
 ["histories","schedules","inputs"],"every sequence of bounded length over valid, failing and malformed queries, and concurrent executions of them",
 "Tests issue one query on a fresh keeper; leftover state from earlier or concurrent queries is never present.",
 ["x/evm/precompiles/cosmos/contract.go","x/evm/keeper/precompiles.go","x/evm/precompiles/cosmos/types.go","x/evm/types/query_cosmos.go"],
 [("whitelist of paths with response types","x/evm/types/query_cosmos.go"),("query and JSON conversion","x/evm/precompiles/cosmos/contract.go")])
p("E09","Gas is bounded by the limit and charged for all work done",
 "An EVM execution never consumes more than the remaining gas of its transaction, every failed execution is charged the gas it burned (an exceptional halt burns all the gas it was given), and a deeper call can never leave its caller with more gas than it was given.",
 ["programs","inputs"],"every program of the alphabet ending in return, revert, invalid opcode or exhaustion, at every gas limit of a boundary set",
 "Tests use ample gas; boundary gas values and exceptional halts are not enumerated.",
 ["x/evm/keeper/context.go","x/evm/precompiles"],
 [("gas meter accounting around the EVM call","x/evm/keeper/context.go")])
p("E10","Contracts see correct block and transaction context",
 "During an execution the EVM reports the height, time, chain id, sender, gas price in the EVM's 18-decimal unit and balances of the current transaction, and a historical block hash is the chain's own hash for the last blocks the chain retains and zero for every other height.",
 ["histories","configurations"],"every height within and around the retention window, retention settings raised and lowered over time, for each fee-token decimals setting of the bounded set",
 "Tests query a few heights with one retention value; the window's edges and changes of the setting are not enumerated.",
 ["x/evm/keeper/context.go","x/evm/keeper/context_utils.go","x/evm/abci.go"],
 [("block hash ring kept each block","x/evm/keeper/context_utils.go")])

# ---------------- accounts
p("A01","Distinct chain addresses never share an EVM identity",
 "Each chain address maps to exactly one EVM address and back: a short address maps to itself, a longer one to a reserved shorthand bound to it forever, and no two different chain addresses can ever act as, spend from or receive into the same EVM address.",
 ["histories","inputs"],"every bounded history of sends, calls and creations among short addresses, and longer addresses that collide in their trailing bytes or shorthand",
 "Tests convert one long address; collisions of addresses and orderings of first use are not explored.",
 ["x/evm/keeper/address.go","x/evm/types/auth.go","x/evm/keeper/erc20.go"],
 [("address conversion and shorthand account","x/evm/keeper/address.go")])
p("A02","Account identity is stable and account numbers are unique",
 "Every account, user or contract, has one account number no other account ever has, keeps its number, public key and sequence unless it is destroyed, and its sequence never decreases, whatever mix of deposits, calls, creations and failures happens to its address.",
 ["histories","programs"],"every bounded history of funding, calling, deploying onto, and destroying colliding addresses, with failing transactions in between",
 "Tests create accounts along one path each; mixing creation paths on the same address is not covered.",
 ["x/evm/state/statedb.go","x/evm/keeper/address.go","x/bank/keeper/send.go"],
 [("contract account creation","x/evm/state/statedb.go")])

# ---------------- tokens
p("B01","Token transfers conserve value and supply equals the sum of balances",
 "For every token, the reported total supply always equals the sum of all holders' balances; transfers by any route (bank send, contract call, module transfer, fee, refund, value transfer) move exactly the stated amount from one account to the other, including to oneself, and only authorised mints and burns change the supply, by exactly the stated amount.",
 ["histories","inputs"],"every operation sequence of bounded length over bank and contract routes on two tokens and three accounts with boundary amounts",
 "Tests perform single transfers; conservation across mixed routes and failures is not checked.",
 ["x/evm/keeper/erc20.go","x/bank/keeper/send.go","x/bank/keeper/keeper.go","x/evm/contracts/erc20","x/evm/contracts/initia_erc20"],
 [("send, mint and burn through the token contracts","x/evm/keeper/erc20.go")])
p("B02","Bank queries and token contracts always agree",
 "The bank's view of balances, all-balances listings, supply, supply listings, holder listings and metadata always equals what the token contracts themselves report for every registered token and holder, with no missing, duplicated or stale entries, at any page size.",
 ["histories","inputs"],"every bounded history of token operations, compared for all accounts and tokens, every page size and starting point",
 "Tests compare single balances after single operations and one page size.",
 ["x/evm/keeper/erc20.go","x/evm/keeper/erc20_stores.go","x/bank/keeper/view.go","x/bank/keeper/grpc_query.go"],
 [("token and holder registration lists","x/evm/keeper/erc20_stores.go")])
p("B03","A denomination and its token contract are bound one to one",
 "Each token contract has exactly one canonical denomination, resolving it gives back that contract, and the binding never changes once made. A denomination that was never created resolves to no contract, a malformed one resolves to none, and a token minted under a new denomination gets a new contract of its own.",
 ["histories","inputs"],"every bounded history creating tokens by mint, factory and genesis, over look-alike denominations including hexadecimal ones with mixed case",
 "Tests check the mapping for single tokens.",
 ["x/evm/types/denom.go","x/evm/keeper/erc20.go","x/evm/keeper/erc20_stores.go"],
 [("denom to contract maps in both directions","x/evm/keeper/erc20.go")])
p("B04","Only authorised parties mint, burn or seize tokens",
 "Only a token's owner (or the chain for its own denominations) can mint it, only the holder or an approved spender up to the allowance can move or burn a holding, module accounts' holdings cannot be burned from outside, blocked addresses receive neither mints nor transfers through token contracts, and the chain-only entry points reject everyone else.",
 ["histories","inputs"],"every caller in the bounded set, every method, every target account kind and boundary allowance, in sequences",
 "Tests check few caller and method pairs.",
 ["x/evm/contracts/erc20/ERC20.sol","x/evm/contracts/erc20_acl/ERC20ACL.sol","x/evm/contracts/initia_erc20/InitiaERC20.sol","x/evm/precompiles/cosmos/contract.go","x/evm/keeper/erc20.go"],
 [("access modifiers","x/evm/contracts/erc20_acl/ERC20ACL.sol"),("blocked and module address views","x/evm/precompiles/cosmos/contract.go")])
p("B05","Bank sends obey the send rules and are all-or-nothing",
 "A bank send succeeds only if every coin is valid, enabled for sending and covered by the balance and the recipient is allowed to receive; otherwise nothing moves, for any number of coins; send-enabled settings change only by the chain's authority and apply to exactly the named denominations.",
 ["histories","inputs"],"every bounded history of settings changes and sends over enabled, disabled and default denominations, blocked recipients and partially covered multi-coin amounts",
 "Tests check single settings with single-coin sends.",
 ["x/bank/keeper/msg_server.go","x/bank/keeper/send.go","x/evm/keeper/erc20.go"],
 [("send checks","x/bank/keeper/msg_server.go")])
p("B06","Only accepted token contracts enter the token registry",
 "A contract becomes a registered token only if the token factory created it or the chain's settings allow it, only it can register holders for itself, and each registered token and each holder appears in the registry exactly once; rejected registrations leave no trace.",
 ["configurations","histories"],"every combination of factory-made, listed, unlisted and externally owned callers, settings open, listed or closed, in every registration order",
 "Tests check one accepted and one rejected registration.",
 ["x/evm/precompiles/erc20_registry/contract.go","x/evm/keeper/erc20.go","x/evm/keeper/erc20_stores.go","x/evm/types/params.go"],
 [("registry precompile and store lists","x/evm/keeper/erc20_stores.go")])
p("B07","Burned and pooled tokens are accounted exactly per coin",
 "Burning a set of coins removes exactly each coin's amount from the burner: chain-created tokens leave the supply, contract-owned tokens go to the community pool, and no coin is charged twice, regardless of how the coins are mixed.",
 ["inputs","histories"],"every multiset of up to three coins mixing chain-created and contract-owned denominations",
 "Tests burn one coin kind at a time.",
 ["x/evm/keeper/erc20.go","app/keepers/community_pool.go"],[("burn path","x/evm/keeper/erc20.go")])

# ---------------- NFTs
p("N01","NFT classes and ownership stay consistent with their contracts",
 "Each NFT class is bound one to one to a contract, minting creates each token once with the given owner, identifier and data, transfers and burns need the current owner and move or remove exactly that token, and class and token queries always return what was stored, with original identifiers restored.",
 ["histories","inputs"],"every bounded sequence of class creation, mint, transfer and burn over two classes, colliding token identifiers and three owners",
 "Tests run one happy sequence.",
 ["x/evm/keeper/erc721.go","x/evm/types/collection.go"],[("class to contract maps and token id conversion","x/evm/keeper/erc721.go")])

# ---------------- transactions
p("T01","Ethereum and chain transaction forms convert without loss",
 "Converting a signed Ethereum transaction to its chain form and back yields the same transaction (type, hash, nonce, gas, caps, value, data, access list, target and recovered sender), and a transaction that cannot be represented is rejected rather than altered.",
 ["inputs"],"every transaction of the bounded field alphabet: all types, creation and call, boundary values, each fee-token decimals setting",
 "Tests convert a few dynamic-fee transactions with round values.",
 ["x/evm/keeper/txutils.go","x/evm/types/decimals.go","app/ante/verify.go"],[("conversion both ways","x/evm/keeper/txutils.go")])
p("T02","Nothing executes that the Ethereum key did not sign",
 "A transaction carrying an Ethereum signature is accepted only if its messages, sender, target, value, input, gas limit, fee, sequence and chain are exactly those of the signed Ethereum transaction; changing, adding or removing any of them, or wrapping any other message kind, makes it fail verification.",
 ["inputs"],"every single and pairwise mutation of the chain form of each signed transaction in the alphabet",
 "Tests verify unmodified transactions and a corrupted signature.",
 ["app/ante/verify.go","x/evm/keeper/txutils.go","app/ante/sigverify.go"],[("reconstruction and signature check","app/ante/verify.go")])
p("T03","Every included transaction consumes its sequence number exactly once",
 "Each transaction included in a block, whether its messages succeed, fail or run out of gas, advances its signer's sequence so that the same signed transaction can never be executed or charged again, and a transaction rejected before execution leaves the sequence unchanged.",
 ["histories","fault_sequences"],"every bounded sequence of blocks with succeeding, reverting, out-of-gas, multi-message and replayed transactions, Ethereum-signed and chain-signed",
 "Tests check the ante step alone; no test runs a failing transaction through a block and replays it.",
 ["app/ante/sigverify.go","app/posthandler/sequence.go","x/evm/keeper/msg_server.go"],[("sequence handling split over ante, message and post handlers","app/ante/sigverify.go")])
p("T04","Fees and refunds balance to the last unit",
 "A transaction's payer is charged exactly the fee once, the unused part allowed by the refund ratio returns to whoever paid (payer or granter) only for a successful Ethereum-signed transaction, the refund never exceeds the fee, and the fee collector keeps exactly the difference.",
 ["inputs","configurations"],"every outcome, payer kind, refund ratio and gas boundary of the bounded set",
 "Tests cover fee deduction only; the refund path is not tested through a block.",
 ["app/posthandler/gasrefund.go","app/ante/fee.go","x/evm/ante/gas_prices.go"],[("fee deduction and refund","app/posthandler/gasrefund.go")])
p("T05","A failed message changes nothing but fees and sequence",
 "When any message of a transaction fails, no effect of any of its messages remains (storage, tokens, accounts, registrations, queued messages, events of failed work); only the fee and the signer's sequence are consumed, and other transactions in the block are unaffected.",
 ["programs","fault_sequences"],"every two-message transaction of the alphabet with a failure at each position",
 "Tests exercise single-message transactions.",
 ["x/evm/keeper/context.go","x/evm/keeper/msg_server.go","x/evm/state/statedb.go"],[("message-level store branches","x/evm/keeper/context.go")])
p("T06","Unit conversion between token and Ethereum amounts is exact",
 "Converting an amount between the fee token's units and 18-decimal Ethereum units never creates value: it is exact when representable, is refused or rounded in the chain's favour otherwise, and round-trips for every decimals setting.",
 ["inputs","configurations"],"all decimals settings from 0 to 18 and above with boundary amounts around every power of ten",
 "Tests check a few decimals values.",
 ["x/evm/types/decimals.go","x/evm/keeper/txutils.go","jsonrpc/backend/eth.go"],[("conversion helpers","x/evm/types/decimals.go")])

p("T07","A message executes exactly the call or creation it states",
 "An execution message runs once, with its sender as caller and origin and with the target, input, value, access list and salt it states, by whatever route it arrives; one whose fields have no such meaning is refused without effect; its response reports the data returned, the address created and the logs emitted.",
 ["inputs","programs"],"every message kind, route, value, input, access list, target spelling and salt of the alphabet",
 "Tests send a few well-formed messages without access lists and look only at the result.",
 ["x/evm/keeper/msg_server.go","x/evm/keeper/context.go","x/evm/types/txutils.go"],[("message handlers","x/evm/keeper/msg_server.go"),("execution entry points","x/evm/keeper/context.go")])

# ---------------- configuration
p("C01","Only the chain authority changes settings, and only to valid values",
 "Chain parameters change only through the authority; an update that is invalid or unusable (such as a fee token without a working contract) is refused with nothing changed, and an accepted update takes effect exactly as given.",
 ["inputs","histories"],"every single-field deviation of a valid update, each caller kind, and sequences of updates",
 "Tests check few fields.",
 ["x/evm/keeper/msg_server.go","x/evm/types/params.go"],[("authority check and validation","x/evm/keeper/msg_server.go")])
p("C02","Only allowed publishers deploy contracts",
 "When the chain restricts deployment, an account outside the list cannot create a contract by a creation transaction of either kind, and an account on the list always can; when the list is empty everyone can.",
 ["configurations","inputs"],"every list of up to two publishers, every sender, both creation kinds",
 "Tests check one denied sender.",
 ["x/evm/keeper/msg_server.go"],[("publisher check","x/evm/keeper/msg_server.go")])
p("G01","Exporting and importing state reproduces the same chain",
 "Exporting the EVM state from any reachable chain state and importing it into a fresh chain gives the same contracts, storage, tokens, holders, NFT classes, code, block hashes and parameters: queries and executions behave the same on both, and a second export equals the first.",
 ["histories"],"every state reached by bounded histories of token, NFT, contract and parameter operations",
 "Tests export a default state.",
 ["x/evm/keeper/genesis.go","x/bank/keeper/genesis.go","x/evm/types/genesis.go"],[("export and import","x/evm/keeper/genesis.go")])
p("D01","Block execution is deterministic across nodes",
 "Two nodes that execute the same blocks from the same state produce identical application hashes, results, gas and events, no matter what queries, simulations or mempool checks each has served before or in between.",
 ["histories","schedules"],"every placement of the bounded set of queries, simulations and checks between and around the bounded block histories",
 "Tests run one node and never compare.",
 ["x/evm/keeper/context.go","x/evm/keeper/keeper.go","x/evm/precompiles","app/app.go"],[("all consensus state in the committed store","x/evm/keeper/keeper.go")])

# ---------------- IBC hooks
p("I01","Incoming packets run only permitted calls, atomically, as a derived sender",
 "A received transfer packet with a call instruction runs it only if the target contract is allowed and named as receiver, acts as an address derived from the channel and remote sender that no one controls, can spend only the transferred funds it was given, and on any failure returns an error acknowledgement with no state left behind.",
 ["inputs","fault_sequences"],"every packet of the bounded memo, receiver, permission and outcome alphabet, for fungible and NFT packets, with a failure at each step",
 "Tests cover a few of these combinations.",
 ["app/ibc-hooks/receive.go","app/ibc-hooks/util.go","app/ibc-hooks/hooks.go"],[("receive hook","app/ibc-hooks/receive.go")])
p("I02","Acknowledgement and timeout callbacks never disturb settlement",
 "On acknowledgement or timeout the underlying transfer is settled first and always; a requested callback runs at most once, only on an allowed contract, with the right identifier and success flag, and a failing, missing or malformed callback leaves no partial effect and never causes an error.",
 ["inputs","fault_sequences"],"every memo, permission, acknowledgement and callback outcome of the alphabet for both packet kinds and both events",
 "Tests cover the success path and one denied path.",
 ["app/ibc-hooks/ack.go","app/ibc-hooks/timeout.go"],[("callback in a discarded-on-error cache","app/ibc-hooks/ack.go")])

# ---------------- indexer
p("X01","Indexed blocks, transactions and receipts match what was executed",
 "For every committed block the index holds exactly the Ethereum-signed transactions that executed, in order, with receipts whose status, gas, cumulative gas, logs, bloom, contract address and positions match the execution, hash and number lookups agree, and each block's parent hash is the previous block's hash.",
 ["histories","inputs"],"every bounded block history mixing successful, failed, rejected, creation and non-Ethereum transactions in every order",
 "Tests index single-transaction blocks.",
 ["indexer/abci.go","indexer/reader.go","indexer/indexer.go"],[("indexing at block finalisation","indexer/abci.go")])
p("X02","A crash never leaves a partly indexed block",
 "Whatever point a node crashes at while indexing, after restart each block is either fully indexed or not at all, earlier blocks remain intact, and indexing the block again gives the same result as if no crash had happened.",
 ["crash_points","histories"],"every prefix of the writes issued while indexing a bounded block history, then recovery and re-indexing",
 "No test crashes or restarts the indexer.",
 ["indexer/abci.go","indexer/indexer.go"],[("batched write of the indexer store","indexer/indexer.go")])
p("X03","The index cache behaves like the store it fronts",
 "Reads, writes, deletions, existence checks and iteration through the caching store always give the answer an ordinary map would, before and after flushing, and nothing reaches the underlying store before a flush.",
 ["histories","schedules"],"every operation sequence of bounded length over three keys including evictions",
 "Tests cover get and set of single keys.",
 ["indexer/store.go"],[("cache store","indexer/store.go")])
p("X04","Subscribers get every block and log once, in order",
 "Every live subscriber receives each new block header and that block's logs exactly once and in block order, whatever the relative speed of blocks and subscribers, and a slow or departed subscriber never stops the chain or the others.",
 ["schedules"],"every interleaving, up to the bound, of block production, several subscribers and unsubscription",
 "Tests have one subscriber and one block.",
 ["indexer/abci.go","indexer/indexer.go","jsonrpc/namespaces/eth/filters"],[("event channels","indexer/abci.go")])

# ---------------- JSON-RPC
p("J01","Log queries return exactly the matching logs",
 "A log query over any block range or single block returns exactly the logs of those blocks that match the address set and positional topic pattern, in chain order, with correct positions, as if every log had been tested one by one, or an error; never a partial or padded list.",
 ["inputs","histories"],"every filter of the bounded address and topic-pattern alphabet over every range of a bounded chain",
 "Tests of filtering cover no combinations.",
 ["jsonrpc/namespaces/eth/filters/filter.go","jsonrpc/namespaces/eth/filters/subscriptions.go","jsonrpc/backend/filters.go"],[("range scan with bloom pre-check","jsonrpc/namespaces/eth/filters/filter.go")])
p("J02","Polling filters deliver each event once until removed",
 "A polling filter returns each matching block, transaction or log that occurred after it was installed exactly once, in order, split over polls in any way; it stays alive while polled within the timeout, and after removal or expiry it is gone and leaks nothing.",
 ["schedules","histories"],"every interleaving, up to the bound, of installing, events, polls, expiry ticks and removal",
 "There are no tests of polling filters.",
 ["jsonrpc/namespaces/eth/filters/api.go"],[("filter table and timeout loop","jsonrpc/namespaces/eth/filters/api.go")])
p("J03","Submitted transactions reach the mempool in nonce order, none lost",
 "Transactions submitted over JSON-RPC are forwarded per sender in nonce order: one with a future nonce is held and forwarded as soon as the gap closes, one with a stale nonce is refused, and concurrent submissions neither lose, duplicate nor reorder any, for any number of senders.",
 ["schedules","histories"],"every submission order of bounded transaction sets and every interleaving, up to the bound, of concurrent submitters",
 "There are no tests of the submission queue.",
 ["jsonrpc/backend/tx.go","jsonrpc/backend/backend.go"],[("per-account lock and queue","jsonrpc/backend/tx.go")])
p("J04","RPC answers agree with the chain for every block selector",
 "Balances, code, storage, nonces, blocks, transaction counts, transactions by position and receipts served over JSON-RPC equal the chain's own state at the selected height, for every selector (latest, earliest, pending, number, hash) and position, and unknown ones give null or an error, never another object's data.",
 ["inputs","histories"],"every selector and position over every block of a bounded chain",
 "There are no tests of the RPC backend against a chain.",
 ["jsonrpc/backend/block.go","jsonrpc/backend/tx.go","jsonrpc/backend/eth.go"],[("selector resolution and index reads","jsonrpc/backend/block.go")])
p("J05","The pending-transaction view mirrors the mempool",
 "A transaction is reported as pending exactly while it is accepted in the mempool and not yet included, under its own hash, and inserting or removing transactions never blocks the node.",
 ["histories","schedules"],"every bounded sequence of insert, remove and block inclusion over colliding transactions with any subscriber set",
 "Tests insert one transaction.",
 ["indexer/mempool.go","indexer/indexer.go"],[("mempool wrapper","indexer/mempool.go")])
p("J06","Fee data is each block's own, however it is fetched",
 "For every block range and percentile list, the fee history served over JSON-RPC gives each requested block's own base fee, gas-used ratio and percentile rewards plus the base fee that follows, and the gas price is the current base fee, whatever order the concurrent block fetchers finish in and whatever was asked and cached before.",
 ["schedules","inputs","histories"],"every range, end selector and percentile list over bounded chains with changing fees, every pair of queries on one node, and every schedule of the fetchers up to the bound",
 "There are no tests of the fee history.",
 ["jsonrpc/backend/feehistory.go","jsonrpc/backend/gas.go"],[("concurrent block fetchers and result cache","jsonrpc/backend/feehistory.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P)); assert len({x["id"] for x in P})==len(P)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
