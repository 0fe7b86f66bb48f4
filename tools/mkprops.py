"""Writes properties.jsonl (kept as a program so that it stays easy to edit)."""
import json, os
VM = "src/ethereum/*/vm/"
P = []


def p(id, title, statement, over, q, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    d["anchors"].update(kw)
    P.append(d)


NOEVM = "The stable tests never execute a contract: they cover ethash, genesis, the state database, tracing plumbing and repository tools; "

p("C01", "Every pure instruction computes its defined result",
  "In every fork, each arithmetic, comparison, bitwise, shift, hashing and count instruction yields exactly the 256-bit result the protocol defines for all operand values, including zero divisors, sign boundaries, over-wide shifts and wrap-around. Hash instructions digest exactly the memory range named.",
  ["inputs", "configurations"], "all operand tuples over a boundary alphabet of 256-bit values, all pure opcodes, all 18 forks",
  NOEVM + "the value space is 2^256 per operand and only boundary structure matters.",
  [VM + "instructions/arithmetic.py", VM + "instructions/bitwise.py", VM + "instructions/comparison.py", VM + "instructions/keccak.py"],
  [("operator implementations", VM + "instructions/*.py"), ("opcode table", VM + "instructions/__init__.py")],
  observe_at=["logs and gas of a transaction that runs the instruction"])
p("C02", "Programs run, jump and stop exactly as defined; undefined bytes abort",
  "For every byte string used as code, execution order, jump validity (only to real jump destinations, never into push data), stack limits, memory growth and the terminating condition follow the protocol of the fork. An instruction not yet introduced in a fork aborts the frame there and consumes its gas.",
  ["programs", "configurations"], "all programs up to a length over a reduced opcode alphabet, and all 256 opcodes at each fork",
  NOEVM + "programs are unbounded and the interesting ones mix push data with jump targets or sit at the 1024-item stack limit.",
  [VM + "interpreter.py", VM + "runtime.py", VM + "stack.py", VM + "memory.py", VM + "instructions/control_flow.py"],
  [("interpreter loop", VM + "interpreter.py"), ("jump destination analysis", VM + "runtime.py"), ("memory read/write", VM + "memory.py")])
p("C03", "Gas is charged exactly and running out is atomic",
  "Every program consumes exactly the gas the fork's schedule prescribes; with any smaller gas limit the transaction fails, all its effects except nonce and fee are undone and the whole limit is charged. Memory, copy, log, hash and exponent costs follow their formulas at every size.",
  ["inputs", "programs"], "every gas limit from the intrinsic cost to beyond completion for a set of programs touching each cost rule; all size boundaries of the size-dependent costs; all forks",
  NOEVM + "an exact gas schedule cannot be sampled: the failing limit is one value among thousands.",
  [VM + "gas.py", VM + "instructions/*.py"], [("charge", VM + "gas.py"), ("memory expansion cost", VM + "gas.py")])
p("C04", "Contracts see the true transaction, block and account context",
  "Whatever the call depth and call kind, a contract observes the correct caller, origin, own address, value, call data, code, balances, code hashes, gas price, block fields and recent block hashes, and zero beyond the bounds of data. Block hashes are available for exactly the last 256 blocks.",
  ["inputs", "configurations", "histories"], "all context instructions in each call kind nesting up to depth 2, boundary offsets and sizes, block numbers around the 256-block window, all forks",
  NOEVM + "context depends on the call path taken, and the window on chain position.",
  [VM + "instructions/environment.py", VM + "instructions/block.py", "src/ethereum/*/utils/message.py"],
  [("environment instructions", VM + "instructions/environment.py"), ("message preparation", "src/ethereum/*/utils/message.py")])
p("C05", "Message calls transfer, isolate and return exactly as defined",
  "For every call kind, value, gas request, target and depth, a call moves value, forwards and returns gas, exposes return data and writes output memory exactly as defined; a failing callee leaves no trace except consumed gas, and no state change is possible inside a read-only call. Nesting stops at depth 1024 without failing the caller.",
  ["programs", "inputs", "configurations"], "all call kinds x callee behaviours x values x gas requests x output windows, two-level nestings, depth limit, all forks",
  NOEVM + "the failures need a specific nesting or a failing callee after partial effects.",
  [VM + "instructions/system.py", VM + "interpreter.py", VM + "__init__.py", VM + "gas.py"],
  [("call instructions", VM + "instructions/system.py"), ("frame snapshot/rollback", VM + "interpreter.py"), ("63/64 rule and stipend", VM + "gas.py")])
p("C06", "Contract creation deploys at the right address or leaves no trace",
  "Creation by transaction or instruction derives the defined address, runs the init code with the right context, charges deposit and size costs, enforces size, prefix and collision rules, and on any failure restores everything except the creator's nonce and the consumed gas. Re-creation after destruction and colliding addresses behave as defined in each fork.",
  ["programs", "histories", "configurations"], "all creation paths x init-code behaviours x value/collision/nonce/size conditions x nesting, all forks",
  NOEVM + "collisions, deposit failures and per-fork limits need precise pre-states.",
  [VM + "interpreter.py", VM + "instructions/system.py", "src/ethereum/*/utils/address.py"],
  [("create message processing", VM + "interpreter.py"), ("address derivation", "src/ethereum/*/utils/address.py")])
p("C07", "Storage writes cost and refund exactly by original, current and new value",
  "For every history of writes to a slot within a transaction, across frames and reverts, the gas charged and the refund granted follow the fork's net-metering rule and the stored value is the last committed one. Total refunds are capped at the fork's fraction of gas used.",
  ["histories", "configurations"], "all write sequences up to length 4 over values {0,1,2} from original {0,1}, split over call frames with and without revert, all forks",
  NOEVM + "the rule is a function of a history, not of one write.",
  [VM + "instructions/storage.py", "src/ethereum/*/state.py", "src/ethereum/*/fork.py"],
  [("storage write", VM + "instructions/storage.py"), ("original value lookup", "src/ethereum/*/state.py"), ("refund cap", "src/ethereum/*/fork.py")])
p("C08", "Cold and warm access is charged once per transaction and forgotten on revert",
  "From the fork that introduced access lists, the first touch of each account or slot in a transaction costs the cold price and later touches the warm price; declared access-list entries, the sender, target, precompiles and (when defined) coinbase start warm; a reverted frame forgets the touches it made. Each transaction starts afresh.",
  ["histories", "programs", "configurations"], "all touch sequences up to length 3 over all touching instructions, addresses and frames (inline, sub-call kept, sub-call reverted), with all small access lists",
  NOEVM + "warmth is a property of the whole access history of the transaction.",
  [VM + "instructions/environment.py", VM + "instructions/storage.py", VM + "instructions/system.py", VM + "__init__.py", "src/ethereum/*/utils/message.py"],
  [("accessed sets propagation", VM + "__init__.py"), ("pre-warming", "src/ethereum/*/utils/message.py")])
p("C09", "Self-destruct and empty-account removal follow the fork's rules",
  "Self-destruction moves the whole balance, grants the defined refund once, and removes the account at the end of the transaction only when the fork says so and only if no enclosing frame was undone. Accounts left empty are removed or kept exactly as each fork defines, including the historical exception for the touched precompile.",
  ["programs", "histories", "configurations"], "all short sequences of self-destructs, revivals, value sends and touches over contract/beneficiary kinds and frame outcomes, all forks",
  NOEVM + "the behaviour depends on order, frames, and pre-existing empty accounts.",
  [VM + "instructions/system.py", VM + "interpreter.py", VM + "__init__.py", "src/ethereum/*/fork.py", "src/ethereum/*/state.py"],
  [("self-destruct", VM + "instructions/system.py"), ("end-of-transaction deletion", "src/ethereum/*/fork.py"), ("touched accounts", VM + "__init__.py")])
p("C10", "Transient storage lives exactly one transaction and obeys reverts",
  "Transient values are private to the executing account, visible to later frames of the same transaction, undone when the writing frame is undone, unwritable in read-only calls, and gone in the next transaction; they never affect persistent state.",
  ["histories", "programs"], "all sequences up to length 4 of transient reads/writes across two contracts, call kinds, reverting frames and two transactions, in every fork that has it",
  NOEVM + "needs multi-frame histories.",
  [VM + "instructions/storage.py", "src/ethereum/*/state.py", VM + "interpreter.py"],
  [("transient storage journal", "src/ethereum/cancun/state.py and later"), ("instructions", VM + "instructions/storage.py")])
p("C11", "Precompiled contracts return the defined output, gas and failures",
  "At each fork exactly the defined set of precompiled addresses exists; each returns the mathematically defined output for every well-formed input, fails consuming all call gas for every malformed one, treats short inputs as zero-padded where defined, and costs exactly the defined gas. Failure of a precompile never aborts the caller or the client.",
  ["inputs", "configurations"], "boundary and malformed inputs of every precompile at every length class, exact gas and one less, all forks",
  "The stable tests do not call precompiles; malformed encodings, points off the curve or subgroup, and length overflows are a huge input space.",
  [VM + "precompiled_contracts/*", "src/ethereum/crypto/*"],
  [("precompile table", VM + "precompiled_contracts/mapping.py"), ("implementations", VM + "precompiled_contracts/"), ("curve, hash, commitment primitives", "src/ethereum/crypto/")])
p("C12", "Exactly the valid transactions are accepted; rejected ones change nothing",
  "A transaction is included if and only if it satisfies every validity rule of the fork: type, signature, intrinsic and floor gas, nonce, balance for the maximum cost, gas availability, fee caps, sender kind, size, blob and authorization rules. A rejected transaction leaves account state, used gas and receipts untouched.",
  ["inputs", "configurations", "histories"], "every single rule at its exact boundary (just valid / just invalid), pairs of rules, each transaction type, all forks, as first and second transaction of a block",
  NOEVM + "each rule has an off-by-one boundary and interacts with block-level counters.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/transactions.py"],
  [("transaction checks", "src/ethereum/*/fork.py"), ("intrinsic cost and static checks", "src/ethereum/*/transactions.py")])
p("C13", "Fees are charged exactly and ether is neither created nor lost",
  "For every included transaction the sender pays exactly used gas at the effective price plus blob fee, the beneficiary receives exactly the priority part, and the base part is burnt; apart from that burn, self-destruct burns and protocol rewards or withdrawals, total ether is unchanged. This holds for success, revert, exceptional halt and every refund amount.",
  ["histories", "inputs", "configurations"], "all sequences up to length 2 of transactions over outcome x type x fee setting x role coincidence (sender = beneficiary = coinbase), all forks",
  NOEVM + "aliasing of roles and price rounding only show in combinations.",
  ["src/ethereum/*/fork.py"], [("transaction processing", "src/ethereum/*/fork.py"), ("balance moves", "src/ethereum/*/state.py")])
p("C14", "Transaction encoding is canonical and the sender is who signed for this chain",
  "Decoding an encoded transaction gives it back and every non-canonical, truncated or unknown-type encoding is refused; the transaction hash and signing payload cover exactly the defined fields. The recovered sender is the signer for exactly the signatures the fork allows (value ranges, low-s, parity, replay protection), and a transaction bound to another chain id is rejected.",
  ["inputs", "configurations"], "all transaction types x field boundary values x signature mutations x chain ids, all single-byte truncations/extension of encodings, all forks",
  "No stable test signs or decodes a transaction; signature malleability and cross-chain replay are adversarial inputs.",
  ["src/ethereum/*/transactions.py", "src/ethereum/*/fork.py", "src/ethereum/crypto/elliptic_curve.py"],
  [("sender recovery and signing hashes", "src/ethereum/*/transactions.py (early forks: fork.py)"), ("encode/decode", "src/ethereum/*/transactions.py")])
p("C15", "Only headers that validly extend the chain are accepted",
  "A block is accepted only if its header satisfies every header rule of the fork with respect to its parent - linkage, number, time, gas limits, difficulty or constant fields, base fee, blob gas, extra data, proof of work - and its parent is the head of the chain; a refused block leaves the chain's blocks and state as they were when the header is at fault.",
  ["inputs", "configurations", "histories"], "every header field at and around its boundary relative to the parent, all pairs of corrupted fields, all forks",
  "Stable tests never import a block.",
  ["src/ethereum/*/fork.py"], [("header validation", "src/ethereum/*/fork.py"), ("proof of work check", "src/ethereum/{frontier..gray_glacier}/fork.py")])
p("C16", "Difficulty, gas-limit, base-fee and blob-price formulas are exact",
  "For every parent and child, the computed difficulty (with bomb and ommer term per fork), allowed gas-limit band, base fee, excess blob gas and blob price equal the protocol's integer formulas with their exact rounding, minimum and boundary behaviour.",
  ["inputs", "configurations"], "grids of parent gas used/limit/base fee, timestamps and bomb periods, excess and used blob gas including every threshold, all forks",
  "Formulas are exercised by no stable test; errors are one-unit roundings at thresholds.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/vm/gas.py", "src/ethereum/utils/numeric.py"],
  [("difficulty / base fee / gas limit", "src/ethereum/*/fork.py"), ("blob gas", "src/ethereum/*/vm/gas.py"), ("integer exponential", "src/ethereum/utils/numeric.py")])
p("C17", "A block is accepted exactly when its commitments match its execution",
  "Executing a block yields the state root, transaction root, receipt root, bloom, gas used, blob gas used, withdrawals root and requests hash the protocol defines, in transaction order; a block whose header differs in any of them is refused and the chain is not extended. The chain keeps at least the most recent 255 blocks and grows by exactly the accepted block.",
  ["histories", "inputs", "configurations"], "all short chains of blocks built from a transaction alphabet with all header commitments recomputed independently, plus every single corrupted commitment, all forks",
  "Stable tests never run a state transition.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/bloom.py", "src/ethereum/*/trie.py", "src/ethereum/*/blocks.py"],
  [("state transition", "src/ethereum/*/fork.py"), ("bloom", "src/ethereum/*/bloom.py"), ("receipt encoding", "src/ethereum/*/blocks.py")])
p("C18", "Ommers are admitted and rewarded exactly by the rules",
  "Before the merge a block may include at most two distinct, valid, recent, not-already-included ommers that branch from a recent ancestor, and miner and ommer rewards are exactly the fork's amounts by ommer age; every other ommer list makes the block invalid. Later forks admit none and pay no reward.",
  ["histories", "inputs", "configurations"], "all ommer lists up to length 3 over a pool of valid/duplicate/too-old/too-new/included/ancestor/sibling headers, ages 1..7, all pre-merge forks",
  "Ommer selection depends on a multi-block history that no stable test builds.",
  ["src/ethereum/{frontier..gray_glacier}/fork.py"], [("ommer validation", "validate_ommers in fork.py"), ("rewards", "pay_rewards in fork.py")])
p("C19", "System calls, withdrawals and requests are processed exactly once and in order",
  "Each block first feeds the beacon root and parent hash to their system contracts, credits every withdrawal exactly, and derives the requests list from deposit logs and the two request contracts, each at its defined position with its defined encoding. A missing or failing mandatory system contract or a malformed deposit log makes the block invalid, optional ones do not.",
  ["histories", "inputs", "fault_sequences"], "all combinations of present/absent/reverting/halting/returning system contracts, withdrawal lists up to length 3 over account kinds, deposit log layouts with each field corrupted",
  "Needs predeploys in odd states and malformed logs; stable tests run no block.",
  ["src/ethereum/{shanghai,cancun,prague,osaka}/fork.py", "src/ethereum/{prague,osaka}/requests.py"],
  [("system transactions", "fork.py"), ("withdrawals", "fork.py"), ("deposit parsing and requests hash", "requests.py")])
p("C20", "Delegated accounts behave exactly as the set-code rules define",
  "Processing an authorization list sets, replaces or clears delegations only for valid authorizations (chain, nonce, signature, code, in list order), with the defined gas, refund, warmth and nonce effects that survive a failing execution. Every code-reading or calling instruction resolves a delegation exactly one level and as the protocol says.",
  ["histories", "inputs", "programs"], "all authorization lists up to length 2 over an authority/validity alphabet x execution outcomes, all code-observing and calling instructions on delegated targets incl. chains, loops and precompiles",
  "No stable test covers set-code; interactions are combinatorial.",
  ["src/ethereum/{prague,osaka}/vm/eoa_delegation.py", "src/ethereum/{prague,osaka}/vm/interpreter.py", "src/ethereum/{prague,osaka}/fork.py"],
  [("set delegation", "vm/eoa_delegation.py"), ("delegation resolution", "vm/instructions/system.py, environment.py")])
p("C21", "State snapshots nest: rollback restores exactly, commit keeps exactly",
  "For every sequence of state operations and nested snapshot begin/commit/rollback, reads return what a plain copy-on-begin map would, original-value reads return the value at the outermost begin, and empty, absent and destroyed accounts are distinguished correctly.",
  ["histories", "configurations"], "all operation sequences up to a depth over two accounts and two slots with nesting, in each fork's state implementation",
  "Two state tests exist, for a single small scenario; the guarantee is over all histories.",
  ["src/ethereum/*/state.py"], [("journal", "src/ethereum/*/state.py"), ("account helpers", "src/ethereum/*/state.py")])
p("C22", "Roots commit exactly to the contents, whatever the insertion history",
  "The trie root of any key/value set equals the Merkle Patricia root the protocol defines, is independent of insertion, overwrite and deletion order, and copies are independent; state and storage roots commit to exactly the existing accounts and non-zero slots.",
  ["histories", "inputs"], "all insert/overwrite/delete sequences up to a depth over prefix-colliding keys and short/long values; all small key sets; all forks' trie implementations; random-free large index sets (0..300) as used by block tries",
  "The trie has no stable tests at all in this baseline; structure depends on key-prefix coincidences.",
  ["src/ethereum/*/trie.py", "src/ethereum/*/state.py"], [("patricialize/root", "src/ethereum/*/trie.py"), ("state root", "src/ethereum/*/state.py")])
p("C23", "The optimized state database is indistinguishable from the plain one",
  "For every sequence of state operations, snapshots and root computations, the optimized implementation returns the same values, flags and state root as the plain implementation of the same fork.",
  ["histories"], "all operation sequences up to a depth over two accounts and two slots, nested snapshots, root recomputation between transactions, every fork the optimized database can be patched into",
  "The two stable tests run one fixed operation list each.",
  ["src/ethereum_optimized/state_db.py", "src/ethereum_optimized/__init__.py"], [("optimized database", "src/ethereum_optimized/state_db.py"), ("monkey patching", "src/ethereum_optimized/*.py")])
p("C24", "Proof-of-work hashing matches the ethash definition and the optimized validator",
  "Epoch sizes, seeds, cache generation, dataset items and the light hash are exactly those the ethash definition yields, for every epoch and nonce; a header's proof of work is accepted iff mix digest and target both match, and the optimized check agrees.",
  ["inputs"], "all epochs up to 2048 for sizes/seeds, small caches in full for cache/dataset/hash agreement with an independent implementation, every single-field corruption of a mined header",
  "Existing tests compare a few published constants and one block.",
  ["src/ethereum/ethash.py", "src/ethereum_optimized/fork.py", "src/ethereum/*/fork.py"], [("ethash", "src/ethereum/ethash.py"), ("optimized proof-of-work check", "src/ethereum_optimized/fork.py")])
p("C25", "Genesis, irregular transitions and fork schedule are applied exactly",
  "A genesis configuration yields exactly the state and header it describes for every fork's types; the DAO transition moves exactly the listed balances once and requires the marked headers in its window; fork activation criteria are totally ordered and select the fork that is active at each block number and time.",
  ["inputs", "configurations", "histories"], "all small genesis allocations and fields for every fork, DAO list membership subsets, block numbers around every activation boundary, all pairs of criteria",
  "Stable tests cover mainnet genesis only; the DAO transition and schedule boundaries have none.",
  ["src/ethereum/genesis.py", "src/ethereum/dao_fork/dao.py", "src/ethereum/dao_fork/fork.py", "src/ethereum/fork_criteria.py", "src/ethereum_spec_tools/forks.py"],
  [("genesis", "src/ethereum/genesis.py"), ("DAO", "src/ethereum/dao_fork/"), ("criteria", "src/ethereum/fork_criteria.py"), ("fork discovery", "src/ethereum_spec_tools/forks.py")])
p("C26", "The command-line transition tools agree with the protocol they wrap",
  "For every input environment, allocation and transaction list, the state-transition tool reports the post-state, receipts, roots, gas and rejected transactions that executing the same block gives; the block builder emits a block whose hash and encoding decode to its inputs.",
  ["inputs", "histories", "configurations"], "all combinations of small allocations, environments, transaction lists (valid and invalid), rewards and ommers, per fork",
  "Stable tests do not run the tools end to end.",
  ["src/ethereum_spec_tools/evm_tools/t8n/__init__.py", "src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py", "src/ethereum_spec_tools/evm_tools/t8n/env.py", "src/ethereum_spec_tools/evm_tools/b11r/*.py", "src/ethereum_spec_tools/evm_tools/loaders/*.py"],
  [("t8n driver", "evm_tools/t8n/__init__.py"), ("input decoding", "evm_tools/loaders/"), ("block builder", "evm_tools/b11r/")])
p("C27", "Tracing reports the execution faithfully and never changes it",
  "With any tracer attached, results are identical to an untraced run; the step trace lists exactly the executed instructions in order with the correct program counter, gas, cost, stack, memory, depth and error, and counts match.",
  ["programs", "configurations"], "a program set covering every instruction class, calls, creates, failures; each tracer option combination; all forks",
  "Stable trace tests cover a fixed small scenario.",
  ["src/ethereum/trace.py", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/*.py"], [("trace hook", "src/ethereum/trace.py"), ("EIP-3155 tracer", "evm_trace/eip3155.py"), ("counter", "evm_trace/count.py"), ("group", "evm_trace/group.py")])
p("C28", "Shared byte, hex, number and hash helpers are exact",
  "Padding, stripping, hex conversion, ceiling, endianness, exponential approximation and checked conversion helpers return the defined value for every input and refuse every malformed one; Keccak and Blake2 compression match their definitions at all block boundaries.",
  ["inputs"], "all byte strings up to a small length and boundary lengths, all small integers and word boundaries, every keccak input length 0..300, all blake2 round counts up to a bound",
  "Only a handful of helper cases exist; boundaries of lengths and zero handling are many.",
  ["src/ethereum/utils/*.py", "src/ethereum/crypto/hash.py", "src/ethereum/crypto/blake2.py", "src/ethereum/*/utils/*.py"], [("helpers", "src/ethereum/utils/"), ("hash", "src/ethereum/crypto/")])
p("C29", "Repository tools apply, detect and preserve exactly what they claim",
  "The fork-copy tool produces a new fork package that differs from its template only in the renamed identifiers; the patch tool and lints accept exactly the trees that satisfy their rule and report each seeded violation.",
  ["inputs", "configurations"], "small synthetic source trees covering each lint rule and its violations, every template fork",
  "Stable tests check only that the current tree passes.",
  ["src/ethereum_spec_tools/new_fork.py", "src/ethereum_spec_tools/patch_tool.py", "src/ethereum_spec_tools/lint/**/*.py"], [("new fork", "new_fork.py"), ("lints", "lint/lints/*.py")])
p("C30", "No transaction or block can crash the client",
  "For every well-formed transaction or block, valid or not, processing ends in acceptance or in a declared invalidity; no program, call data, precompile input or header can raise any other error, leave snapshots open or corrupt the interpreter for the next transaction.",
  ["programs", "inputs", "histories"], "every opcode with every combination of extreme operands, all short programs over the full opcode alphabet, precompile length fields at extreme values, followed by a probe transaction, all forks",
  NOEVM + "crashes hide at extreme operands (huge offsets, lengths, counts).",
  [VM + "**", "src/ethereum/*/fork.py"], [("interpreter error handling", VM + "interpreter.py"), ("bounded arithmetic", VM + "gas.py")])

p("C31", "The synchronisation tool imports exactly the provider's chain",
  "For every fork schedule, block content, provider endpoint, state implementation, reply order, batch size and stop, kill or resumption point, the synchronisation tool ends with the blocks, fork, state root and database of a prefix of the provider's chain: blocks are decoded and validated with the fork active at their number and time, what is on disk after a kill is the state after exactly the block it records, resuming continues from it, and an altered, missing or misplaced block or a failing provider makes it stop with an error having imported only the blocks before; it never waits for ever.",
  ["schedules", "crash_points", "histories"], "fork schedules mixing numbers and times; every order of a batch of replies; every kill point; every thread interleaving of downloader and importer; every single faulty reply",
  "No test runs the synchronisation tool; its errors need a particular schedule, reply order, kill point or block content.",
  ["src/ethereum_spec_tools/sync.py", "src/ethereum_spec_tools/forks.py", "src/ethereum/fork_criteria.py", "src/ethereum_optimized/state_db.py"], [("fork tracking, download and persistence", "sync.py"), ("fork discovery", "forks.py")])

p("C32", "The documentation's fork differences are complete and faithful",
  "For every two successive forks and every source file of either, the documentation contains exactly one difference document; reading its unmarked parts together with what it marks as removed gives the older fork's document, together with what it marks as added the newer fork's, nothing is marked where the two agree, identifiers of either fork become identifiers of that difference, and the rendered page shows the same.",
  ["inputs"], "every ordered pair of small modules over the forms of functions, classes, attributes, bodies and markdown; every distribution of files over forks",
  "No test builds the documentation; errors need a particular pair of constructs (a table against a table, a field that is absent on one side).",
  ["src/ethereum_spec_tools/docc.py", "src/ethereum_spec_tools/forks.py"], [("difference discovery, building, minimisation and rendering", "docc.py")])

p("C33", "JSON fixtures and forks are loaded exactly as written",
  "For every fork and every JSON header, transaction, account list, ommer list, withdrawal list or block (with or without its RLP), the object a loader builds encodes to exactly what the JSON says, under every accepted name and notation; what a fork cannot have, or what is missing, is refused and never replaced by a default; and the fork loader and the fork list give, for every name, that fork's own definition and modules.",
  ["inputs"], "every pair of boundary values of header and transaction fields; all transaction types; blocks with several items; all ordered pairs of forks",
  "Fixture tests use one notation and the RLP of the fixture; a wrongly read field shows only where its value is unusual.",
  ["src/ethereum_spec_tools/evm_tools/loaders/**", "src/ethereum_spec_tools/forks.py"], [("JSON to objects", "loaders/fixture_loader.py, loaders/transaction_loader.py"), ("fork attributes", "loaders/fork_loader.py"), ("fork listing", "forks.py")])

p("C34", "Tool runs are independent of each other, and the daemon serves until it is idle",
  "For every sequence of requests in one process, through the command line entry point or the daemon, valid or not, traced or not, each gives the output, error, files and trace events it gives alone in a fresh process and touches nothing of the others; no request ends the daemon; the daemon stops only when it has answered nothing for longer than its timeout and is not answering, then does stop, and without a timeout never stops.",
  ["histories", "schedules"], "a traced run followed by an untraced one, a malformed request between two good ones, a directory removed by the client, a request longer than the timeout, timer against serving loop",
  "No test runs two requests in one process or starts the daemon; leaks show only in particular orders.",
  ["src/ethereum_spec_tools/evm_tools/**", "src/ethereum/trace.py"], [("request handling and idle timer", "evm_tools/daemon.py"), ("tracer installation", "evm_tools/t8n/__init__.py"), ("trace files", "evm_tools/t8n/evm_trace/")])

p("C35", "A block's outcome depends on its chain, state and transactions alone",
  "Importing a block, or executing a transaction, gives the same result whatever else the process executed before or in between for other chains and forks, and in whatever order Python walks its sets; blocks handed in stay as they were, and nothing done for one chain is seen by another.",
  ["histories", "schedules"], "two chains with the same addresses and other contents, interleaved; every iteration order of sets of three addresses",
  "Consensus needs every node to compute the same result; shared caches, defaults and hash orders show only with particular interleavings or hash seeds, which tests do not vary.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/state.py", "src/ethereum/*/vm/**"], [("block import", "fork.py"), ("end of a transaction", "fork.py, vm/interpreter.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
