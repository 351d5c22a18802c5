L_ = "crates/loans/src/"
LEND_NOTE = "One specification of the lending pools (interest, tokens, collateral, liquidation, rewards, terms) over three pools and three accounts, with this property's operations weighted; every pool, balance, debt, reward and read-only answer is compared after every call."
prop("C25", "Lending pools keep what they owe: tokens, debts, reserves and interest add up",
     "A pool's lend tokens in existence are exactly those held, free or locked as collateral. They are minted and redeemed at the exchange rate (cash, plus debts, less reserves, over tokens), rounded so that no mint, redeem, borrowing, repayment, liquidation, donation or payment in or out of the reserves ever makes the token of anybody else worth less. Interest accrues before any of them, for the time since the last accrual, at the rate the pool's model gives for its utilization; the reserve factor's part of it goes to the reserves, the rest to the lenders. Every debt grows by the same index; together debts are never less than the pool counts on. Nobody takes out more cash than there is besides the reserves, nobody lends more than the supply cap allows, and models and terms are taken only when they are sound. What is refused changes nothing.",
     ["inputs", "histories"], "all histories of lending, borrowing and repaying over several pools with all admissible models and terms, amounts from one unit up, at all times between accruals",
     "Unit tests check single operations at round rates; that roundings never favour the caller and interest adds up is a statement about whole histories.",
     [L_ + "lib.rs", L_ + "interest.rs", L_ + "rate_model.rs", L_ + "lend_token.rs"], ["accrue_interest, exchange_rate_from_snapshot, do_mint, do_redeem, do_repay_borrow, account_for_reserves, InterestRateModel, ensure_valid_market"],
     state=[("TotalBorrows, TotalReserves, BorrowIndex, ExchangeRate, LastAccruedInterestTime, AccountBorrows", "what pools are owed and hold", L_ + "lib.rs")], note=LEND_NOTE)
prop("C26", "Borrowers stay covered by collateral; only those in shortfall are liquidated",
     "What is deposited as collateral is locked and counts, at the price and the pool's collateral factor, towards what its owner can borrow; an account's lend tokens of a pool are either all collateral or all free. A borrowing is taken only within the borrow cap, from cash there is, and when all debts of the account stay within what its collateral allows; collateral is taken back, or redeemed, only when what is left covers the debts the same way; and without a price nothing is decided. Only an account whose debts exceed what its collateral is worth at the liquidation thresholds can be liquidated, by somebody else, up to the close factor of one of its debts, for collateral worth what was repaid times the incentive, of which the pool's share goes to its reserves, and never for more than was deposited. A debt is reduced by exactly what was repaid.",
     ["inputs", "histories", "schedules"], "all histories of deposits, debts in several currencies, prices at and around each threshold, missing prices, accrued interest, and repeated partial liquidations",
     "Unit tests use one collateral and one debt at fixed prices; edges move with interest, prices, terms and rounding.",
     [L_ + "lib.rs"], ["do_borrow, borrow_allowed, get_account_liquidity, get_account_liquidation_threshold_liquidity, do_withdraw_collateral, redeem_allowed, do_liquidate_borrow, liquidate_borrow_allowed, liquidated_transfer"],
     state=[("AccountDeposits, AccountBorrows, Markets", "collateral, debts and the terms of pools", L_ + "lib.rs")], note=LEND_NOTE)
prop("C27", "Lending rewards follow what is lent and owed, block by block, paid once",
     "Each pool's rewards for lenders and borrowers accrue per block at the speed set, in proportion to the lend tokens held (free, locked, or changing hands) and to the debts owed at the time; before either changes, in any way including transfer, liquidation and change of speed, what was earned up to then is settled by the old one. What lenders are granted together never exceeds what was promised. Claiming pays all that was earned, once, to its owner, by whomever it is asked, for one pool or all, from the incentive account; when that cannot pay, nothing is paid or lost.",
     ["inputs", "histories", "schedules"], "all histories in which stakes, debts and speeds change at, between and after blocks, claims in any order by anyone, and an incentive account that runs dry",
     "Unit tests accrue rewards for one or two accounts; who earns what when tokens move, debts are liquidated or speeds change depends on the history.",
     [L_ + "farming.rs", L_ + "lib.rs"], ["update_reward_supply_index, update_reward_borrow_index, distribute_supplier_reward, distribute_borrower_reward, pay_reward, OnTransfer hooks of lend tokens"],
     state=[("RewardSupplyState, RewardBorrowState, RewardSupplierIndex, RewardBorrowerIndex, RewardAccrued", "indices and what was earned", L_ + "lib.rs")],
     note=LEND_NOTE + " Debts are rounded up while the pool's total is not, so borrowers together may get a few units more than the speed.")
prop("C28", "Locked tokens give voting power that decays, and a share of what is emitted",
     "Whoever locks tokens has voting power in proportion to the amount and the time left, rounded per unit of time as specified, which falls with every block to nothing at the end of the lock; all power together is always the sum of everyone's, now and at any later height. Only the owner can lock, add or extend, within the maximal time, never less than the minimum or more than is owned and allowed (limits, bars); what is locked cannot be spent, and is free again only after the end. Power reserved for something is not free. Emission goes into one pool by the power at each one's last update: a block pays the annuity's rate, capped by what is wrapped; claiming pays all that is owed, once, from the annuity or not at all. New tokens come into being exactly at the start of each period, by the rate set, and nobody but root sets rates, limits or starts.",
     ["inputs", "histories", "schedules"], "all histories of locks that begin, grow, are extended, expire and are renewed by several owners at all heights around span boundaries, with transfers, limits, emission and claims in between",
     "Unit tests follow one or two locks over one period; that the total stays the sum over many overlapping and extended locks is not tested.",
     ["crates/escrow/src/lib.rs", "crates/annuity/src/lib.rs", "crates/supply/src/lib.rs", "crates/reward/src/lib.rs"],
     ["checkpoint, supply_at, balance_at, deposit_for, remove_lock, get_free_balance; annuity begin_block, withdraw_rewards; supply begin_block"],
     state=[("Locked, PointHistory, SlopeChanges, UserPointHistory", "locks and the decay of power", "crates/escrow/src/lib.rs")])
DX = ["crates/dex-general/src/lib.rs", "crates/dex-general/src/swap/mod.rs"]
prop("C29", "Exchange pools keep to the constant product, and shares never lose worth",
     "Swapping over any path pays in exactly what each pool's product of reserves and fee rate ask for, rounded for the pool, within the limits and before the deadline the trader gave, or does nothing; every pool on the way must be open. Adding liquidity takes both tokens in the pool's proportion within the given limits and gives shares in proportion; removing gives back the proportion of both, so no share is ever worth less than before, except for the protocol's part of what the pool grew by since the last change, which is exactly the set part. The shares of a pool are all there are, are always backed by both tokens, and no token comes into being or is lost. Pools, rates and the taker of the fee are set by root only, within bounds.",
     ["inputs", "histories"], "all sequences of swaps over any paths (also through one pool twice), additions, removals, donations and changes of fees, at all sizes from one unit to the whole pool",
     "Unit tests check single swaps and additions with chosen numbers; that no sequence with fees switched on and off, donations and rounding takes from the share holders is not tested.",
     DX, ["inner_add_liquidity, inner_remove_liquidity, get_amount_in/out(_by_path), swap, pair_swap, mint_protocol_fee, calculate_added_amount"],
     state=[("PairStatuses, KLast, FeeMeta", "pools", DX[0])])
prop("C30", "Bootstrapped pools: contributions become shares in proportion or come back",
     "While a pool is being filled, anyone who holds what is required can contribute both tokens up to the capacity, before the end. At the end, exactly when both targets are met, anyone can open the pool: all that was contributed becomes its reserves, and each contributor can claim, once, shares in proportion to the value of the contribution at the pool's price, and the same part of each reward. If a target is missed, each gets back, once, exactly what was contributed; nothing can be claimed and refunded. Contributions not used yet and rewards not given yet are always all there; taking rewards back takes only what is left of that pool's. Only root starts, amends and takes back, and never while rewards are left.",
     ["inputs", "histories", "schedules"], "all interleavings of several pools being filled at once, ended, restarted and replaced, with contributions, claims, refunds and rewards charged and taken back at any time",
     "Unit tests follow one pool through one life; pools share one account, so what one life takes from another shows only in histories of several.",
     DX, ["do_bootstrap_contribute, do_end_bootstrap, do_bootstrap_claim, do_bootstrap_refund, bootstrap_distribute_reward, bootstrap_charge_reward, bootstrap_withdraw_reward"],
     state=[("PairStatuses, BootstrapPersonalSupply, BootstrapEndStatus, BootstrapRewards, BootstrapDistributed, BootstrapLimits", "bootstraps", DX[0])])
NOT_APPLICABLE = {}
B = "crates/bitcoin/src/"
O_ = "crates/oracle/src/lib.rs"

prop("C01", "Transaction bytes, sizes and ids follow Bitcoin's wire format",
     "For every transaction value, the serialized bytes are exactly Bitcoin's wire format (shortest-form length prefixes, witness marker and data only when some input has a witness, BIP-34 height push for a coinbase), the transaction id is the double SHA-256 of the witness-free form and the hash that of the full form. Reading an admissible transaction's bytes gives back the same value, and bytes of inadmissible ones (version other than 1 or 2, over-long output script, over-long coinbase script) are refused. The size-bounded id computation succeeds with the same id exactly when the bound is at least the witness-free size.",
     ["inputs"], "all transactions: any number of inputs, outputs, witness items, any script length, value, height, version and lock time, including every length-prefix boundary",
     "The tests serialize a handful of captured transactions; none crosses the 253/65535/2^32 prefix boundaries, mixes witnesses with many inputs, or tries each height-push width.",
     [B + "formatter.rs", B + "types.rs", B + "parser.rs", B + "script.rs"],
     ["TryFormat implementations, CompactUint encoding, BoundedWriter, Transaction::tx_id/hash/tx_id_bounded/size_no_witness, Script::height"],
     note="The specification computes the exact wire image of every simulated transaction; double SHA-256 comes from an independent implementation.")
prop("C02", "Reading untrusted transaction bytes either yields the value or refuses",
     "For every byte string, reading a transaction terminates without panicking and either yields exactly the transaction Bitcoin's grammar assigns to a prefix of it or refuses. Truncated data, a coinbase outpoint with a wrong index, oversized coinbase or output scripts, unknown flag bits, a witness flag without witnesses, and length prefixes beyond the data are all refused.",
     ["inputs"], "every byte string, in particular damaged, truncated and hostile encodings",
     "Tests feed well-formed transactions and a few malformed ones; damaged bytes at arbitrary positions and hostile length prefixes are never tried.",
     [B + "parser.rs"], ["BytesParser cursor with end-of-data checks, explicit limits in parse_transaction_input/_output and Transaction::parse"],
     note="The reader is respecified as a cursor machine; acceptance and value are compared on every simulated image, and a panic is a violation.")
prop("C03", "Merkle proofs: complete, sound, and refused when malformed",
     "For every block and every set of its transactions, the proof built for it verifies with the block's merkle root and the right transaction position. A proof is accepted exactly when its flag bits and hashes describe a full traversal of the tree for its declared transaction count (non-zero and at most the consensus maximum), all bits and hashes are used, and the matched leaf is the id of the transaction supplied within its declared size; the root it yields is the one the tree construction defines. Proofs travel on the wire unchanged, and truncated ones are refused.",
     ["inputs"], "all blocks, subsets, tampered flag bits, hashes, counts, claimed transactions and declared sizes",
     "Tests verify a few captured proofs and single-field mutations; soundness is a statement about every bit and hash pattern and every tree size including odd widths and the count limit.",
     [B + "merkle.rs", B + "types.rs", B + "formatter.rs"], ["traverse_and_extract and the checks of verify_proof; traverse_and_build; MerkleTree::compute_root; MerkleProof::parse/try_format"],
     note="Hashes are ideal in the specification (their construction) and interpreted with an independent double SHA-256 in the replay.")
prop("C04", "Compact targets and difficulty retargeting match Bitcoin exactly",
     "For every 32-bit compact value, decoding yields Bitcoin's target or refuses (negative or overflowing values), and encoding a target yields the canonical compact form. For every admissible previous target and pair of period timestamps, the next required difficulty is Bitcoin's: the elapsed time clamped to a quarter and four times two weeks, scaled exactly, capped at the proof-of-work limit, then encoded.",
     ["inputs"], "all 2^32 compact values, all targets up to the proof-of-work limit, all timestamp pairs (also reversed ones)",
     "Tests check about a dozen vectors from Bitcoin Core; clamping edges, sign-bit carries in the mantissa and truncation order are sampled once or not at all.",
     [B + "math.rs", B + "pow.rs", B + "formatter.rs", B + "parser.rs"], ["GetCompact/SetCompact for U256, calculate_next_work_required"],
     note="The specification computes with unbounded integers.")
prop("C05", "Block headers: exact 80-byte codec, identity and version gate",
     "For every 80-byte string, reading a header yields its fields exactly (or refuses when the compact target is invalid), the block hash is the double SHA-256 of those bytes, and writing it back gives the same bytes up to the canonical compact target. Any other length is refused by the fixed-size reader, truncated input by every reader, and recomputing a header's hash changes nothing else. A header passes the version gate exactly when its version is at least 4.",
     ["inputs"], "every header value and every byte string, including negative versions and invalid targets",
     "Tests decode two or three captured headers.",
     [B + "parser.rs", B + "formatter.rs", B + "types.rs"], ["parse_block_header, BlockHeader::from_bytes/hash/update_hash/ensure_version, TryFormat for BlockHeader"])
prop("C06", "Scripts and addresses: four standard forms, exact and unambiguous",
     "An output script names an address exactly when it is one of the four standard forms with the exact length and opcodes (P2PKH, P2SH, P2WPKH v0, P2WSH v0), the address carries exactly the script's hash, and the script built for an address is that script, so the two directions are inverse. A null-data output yields its payload exactly when it is OP_RETURN with a single push of the rest within 83 bytes; everything else is refused.",
     ["inputs"], "every script byte string and every address",
     "Tests use one script per form; near-misses (length one off, a wrong opcode, wrong push size) are mostly absent.",
     [B + "address.rs", B + "script.rs", B + "types.rs"], ["Address::from_script_pub_key/to_script_pub_key, Script::is_p2*, Script::op_return/extract_op_return_data, TransactionOutput::extract_address"])
prop("C07", "Deposit keys: derived per request, owned by the vault, never shared",
     "For every registered vault key and request id, the deposit key is the vault's public key multiplied by SHA-256(key followed by id), so that the vault's private key times that public number opens the derived address. Two different (vault, request) pairs never share a deposit key, derivation is deterministic, and bytes that are not a curve point are refused rather than turned into a key.",
     ["inputs", "histories"], "all vault keys and request ids, all histories of registrations and requests",
     "Tests derive one or two keys; agreement of v*(c*G) with c*(v*G) and refusal of non-keys are statements about all keys.",
     [B + "address.rs"], ["PublicKey::new_secret_key/new_deposit_public_key/to_hash"],
     note="Ideal group and hash in the specification; interpreted with independent SHA-256, modular arithmetic and curve code. secp256k1 itself is trusted.")
prop("C08", "Conversion to and from rust-bitcoin preserves transactions and scripts",
     "For every admissible transaction, converting it to the rust-bitcoin type succeeds, the result serializes to the same bytes and has the same id, and converting back gives the original value. Scripts and addresses convert to identical script bytes and back.",
     ["inputs"], "all admissible transactions, scripts and addresses",
     "One captured transaction and one address are converted by the tests.",
     [B + "compat.rs", B + "formatter.rs", B + "parser.rs"], ["TryFrom conversions through consensus encoding"])
prop("C09", "A swap order is paid out once, and only against a sufficient proven payment",
     "A swap order is created exactly when its requested Bitcoin amount is positive, and records the maker's address, that amount and the currency sent along. Executing an order succeeds exactly when the order is open and the relay proves that the supplied transaction pays at least the requested amount to the order's own address; the caller then receives exactly what that order locked and the order is gone, so no second execution, with the same or another proof, pays again. A refused execution moves nothing, and the contract always holds at least what its open orders locked.",
     ["inputs", "histories"], "all histories of orders and executions by any callers, any amounts, addresses and proofs, including repeated proofs and amounts one off",
     "The contract's only test deploys it on a running node; no stable test executes an order at all.",
     ["contracts/btc_swap/lib.rs"], ["orders mapping, create_trade, execute_trade, GetFirstPayment chain extension 1101"],
     note="What the chain extension answers about a proof is an input of the specification. Funds of an order its maker replaces stay in the contract; the property does not speak about them.")
prop("C10", "Every asset has one canonical identifier, stored and read back exactly",
     "Two currencies can be joined to a pool share exactly when both are native tokens, foreign assets or stable pool shares, and the share's parts are those two currencies in the order given. Sorting a share gives the same identifier for both orders of a pair (native tokens before foreign assets before stable pool shares, then by number), is idempotent, changes no other currency, and so assigns exactly one identifier to each unordered pair. The bytes of a currency (also inside vault ids and oracle keys) are injective and fixed; reading bytes yields the currency they encode or refuses. The native tokens have fixed numbers, names and decimals, which convert back and forth, and every other number or name is refused.",
     ["inputs"], "all currencies of all kinds with any identifier, all pairs in both orders, all byte strings, all token numbers and names",
     "No stable test of the primitives crate exists; ordering across kinds and near-miss bytes and names are never tried.",
     ["primitives/src/lib.rs"], ["CurrencyId::sort/join_lp_token/is_lp_token/is_lend_token, LpToken into CurrencyId, TokenSymbol conversions, derived codecs"])
prop("C11", "Amounts and requests survive conversion and storage exactly",
     "An integer balance converts to the signed fixed point equal to it, or to nothing when that does not fit, and never wraps. The integer part of a signed or unsigned fixed point number is the number truncated towards zero. Amounts travel through JSON as exact decimal text over the whole 128-bit range, and text that is not such a number is refused. Stored issue, redeem and replace requests keep their field order and status numbering byte for byte, and read back, from storage or JSON, as the same request.",
     ["inputs"], "all 128-bit balances, all fixed point values including negative ones, all texts, all request values",
     "No stable test touches these conversions; the overflow edge, negative truncation and values beyond 64 bits need specific inputs.",
     ["primitives/src/lib.rs"], ["BalanceToFixedPoint, TruncateFixedPointToInt, BalanceWrapper and the request types with serialize_as_string/deserialize_from_string, derived codecs"])

prop("C12", "Reward pools divide every distribution by stake and pay each share once",
     "A distribution to a reward pool is divided among the stakers of the moment in proportion to their stakes, up to rounding: depositing, withdrawing or setting stake moves exactly that stake and changes no one's earned reward, and a staker who joins later shares in nothing distributed before. Collecting pays exactly what was earned and leaves nothing, so it pays once. What stakers can claim never exceeds what was distributed and not yet collected; a distribution to a pool without stake is refused, as is withdrawing more than one's stake. Pools and currencies do not affect each other, and what is refused changes nothing.",
     ["inputs", "histories"], "all histories of deposits, withdrawals, stake changes, distributions and collections by any stakers in any pools and currencies, including overflow edges",
     "The unit tests run half a dozen fixed histories; conservation and proportionality are statements about every interleaving of joins, leaves and distributions.",
     ["crates/reward/src/lib.rs"], ["per-share accumulator RewardPerToken with RewardTally per staker; checked fixed point arithmetic; storage layers"],
     state=[("Stake, TotalStake", "who staked what in a pool", "crates/reward/src/lib.rs"), ("RewardPerToken, RewardTally, TotalRewards", "what each share earned and what was collected of it", "crates/reward/src/lib.rs")])
prop("C13", "Staking pools: proportional slashing, exact rewards, refunds stay claimable",
     "In a vault's staking pool the stakes of vault and nominators add up to the pool's stake. A slash takes from every staker in proportion to their stake and moves no one's reward. Depositing and withdrawing move exactly that stake, withdrawing more than one has is refused, and whatever remains can always be withdrawn. Rewards go to the stakers of the moment by stake, are collected once, and never exceed what was distributed. A forced refund moves the vault's own stake to a fresh pool and leaves the nominators' stakes and rewards in the closed one, from which they can still be withdrawn in full. Other vaults' pools are untouched.",
     ["inputs", "histories"], "all histories of deposits, withdrawals, slashes, distributions, collections and forced refunds over several vaults, nominators and closed pools, including overflow edges",
     "The unit tests run about a dozen fixed histories; none withdraws from a closed pool after it was slashed, or interleaves slashes with late joiners and rewards.",
     ["crates/staking/src/lib.rs"], ["SlashPerToken and SlashTally settled by apply_slash; RewardPerToken and RewardTally; Nonce for closed pools"],
     state=[("Stake, TotalStake, TotalCurrentStake", "recorded and current stakes per pool", "crates/staking/src/lib.rs"), ("SlashPerToken, SlashTally", "what slashes took per unit of recorded stake", "crates/staking/src/lib.rs"), ("Nonce", "which pool is open", "crates/staking/src/lib.rs")],
     note="Slashes are charged by recorded stake, which drifts from true stake when some stakers settle earlier slashes and others do not: a known finding. The proportionality and solvency invariants are evaluated where no such slash happened; conformance is compared everywhere.")

prop("C14", "The relay keeps to the Bitcoin chain with the most proven blocks",
     "A header is stored exactly when its parent is known, it is new, its hash meets its own target and its target is the one Bitcoin's difficulty rule demands on its branch, whichever branch that is. Anyone may submit, in any order. The main chain is always one path back to the first header: extending it moves its tip, and a fork takes over exactly when it gets the required number of blocks ahead. A block counts as settled exactly when it is on the main chain with the required confirmations, no other branch is close enough to compete, and enough parachain blocks passed since it was submitted. A request has expired exactly when both its parachain period and the corresponding number of Bitcoin blocks have passed. What is refused changes nothing.",
     ["inputs", "histories", "schedules"], "all trees of headers and orders of submission: forks of forks, simultaneous overtakes, retarget boundaries on forks, all confirmation settings and queries",
     "Unit tests build one or two forks at fixed heights; which of several branches wins, what a retarget uses on a branch, and when a block settles depend on the whole history.",
     ["crates/btc-relay/src/lib.rs"], ["_store_block_header, verify_block_header, insert_sorted/reorganize_chains/swap_main_blockchain, check_*_confirmations, ensure_no_ongoing_fork, has_request_expired"],
     state=[("Chains, ChainsIndex, ChainsHashes", "chains by length, their heights, their blocks", "crates/btc-relay/src/lib.rs"), ("BestBlock, BestBlockHeight, BlockHeaders", "tip of the main chain and all headers", "crates/btc-relay/src/lib.rs")])

prop("C15", "A Bitcoin payment counts only if settled, included and exactly as required",
     "A transaction is taken as included exactly when its proof and that of the block's coinbase transaction both show a place in the same stored, settled block with enough confirmations, the coinbase at the first position and the same depth. A deposit counts the value of the first output to the deposit address, and nothing else. A payment settles a request exactly when the transaction has at most three outputs, one of them the 32 bytes of the request's number carrying no value, one or two payments to different addresses, and pays exactly the required amount to the required address. Anything else is refused, whoever submits it, and checking changes nothing.",
     ["inputs", "histories"], "all transactions, proofs (forged, for other blocks, positions or transactions), forks and confirmation depths, recipients, amounts and request numbers",
     "Unit tests mock the proof or use one mainnet transaction; they do not combine a real tree of blocks with proofs that are wrong in one respect.",
     ["crates/btc-relay/src/lib.rs", "crates/btc-relay/src/types.rs"], ["_verify_transaction_inclusion, get_and_verify_issue_payment, verify_and_validate_op_return_transaction, OpReturnPaymentData"],
     state=[("BlockHeaders", "stored headers and their merkle roots", "crates/btc-relay/src/lib.rs")])

V, I_, R_, P_, N_, F_ = ("crates/vault-registry/src/", "crates/issue/src/lib.rs", "crates/redeem/src/lib.rs", "crates/replace/src/lib.rs",
                         "crates/nomination/src/lib.rs", "crates/fee/src/lib.rs")
BRIDGE_NOTE = "One specification of the whole bridge (vault registry, issue, redeem, replace, nomination, fee, oracle rates, pools), with this property's operations weighted; every balance, vault, request and pool is compared after every call."
prop("C16", "Every wrapped token is an obligation of some vault, and nothing mints twice",
     "At all times the wrapped tokens in existence (free or reserved, in anyone's hands) equal the issued tokens of all vaults and liquidation vaults. A vault's to-be-issued tokens are exactly those of the open issue requests and incoming replacements, its to-be-redeemed tokens those of the open redeem requests and outgoing replacements, and it never promises more than it has issued. Tokens come into being only when an issue is executed or a reimbursed redeem minted, and go only when a redeem is settled; requests are settled at most once, and what is refused changes nothing.",
     ["inputs", "histories"], "all interleavings of issue, redeem, replace, self redeem, cancellation, liquidation and price changes over several vaults and users",
     "Unit tests mock the other pallets; token conservation across pallets is a statement about whole histories.",
     [V + "lib.rs", V + "types.rs", I_, R_, P_], ["issue_tokens, redeem_tokens, decrease_tokens, cancel_*_tokens and the checked token counters; request statuses"],
     state=[("Vaults, LiquidationVault", "issued, to-be-issued, to-be-redeemed, to-be-replaced tokens", V + "lib.rs"),
            ("IssueRequests, RedeemRequests, ReplaceRequests", "requests and their status", I_)], note=BRIDGE_NOTE)
prop("C17", "Vault collateral: accounted for, within limits, kept above the secure threshold",
     "The total locked collateral of a currency is what its vaults, operators and nominators, and its liquidation vault hold, and every part of it is reserved on the account it belongs to. A vault registers only with the minimum collateral. Deposits are taken up to the currency's ceiling. Collateral is withdrawn only by whom it belongs to, and only when what is left keeps the vault at or above its secure threshold (its own, or the currency's, whichever is set) and is either nothing or at least the minimum. New tokens are accepted for a vault only when it is active, accepts issues, is not banned and stays at the secure threshold; the amounts a vault can still issue, must hold and is collateralized by follow from collateral, price and threshold, and nothing is decided without a price.",
     ["inputs", "histories"], "all deposits, withdrawals and settings at and around the minimum, the ceiling and the thresholds, under all price changes and obligations",
     "Unit tests use a fixed price and a handful of amounts; the edges move with every price, threshold, slash and rounding.",
     [V + "lib.rs", V + "types.rs", V + "pool_manager.rs"], ["try_deposit_collateral, withdraw, is_allowed_to_withdraw_collateral, try_increase_total_backing_collateral, issuable_tokens, calculate_max_wrapped_from_collateral_for_threshold, set_custom_secure_threshold"],
     state=[("TotalUserVaultCollateral, SystemCollateralCeiling, MinimumCollateralVault", "locked total and limits", V + "lib.rs")], note=BRIDGE_NOTE)
prop("C18", "Liquidation: exactly the undercollateralized vaults, and no collateral lost",
     "Anyone can have a vault liquidated exactly when it is active and its collateral is below the liquidation threshold for its issued tokens. Its obligations move to the liquidation vault with the collateral up to the threshold, the operator's own before the nominators', less what is kept for redeems under way; its request for replacement is dropped and its griefing collateral given back; it stops backing tokens and earning rewards. Redeems and issues under way can still be settled or cancelled: what was kept goes back to the operator, to the user, or to the liquidation vault in proportion to the tokens. Anyone holding tokens can burn them for the same share of the liquidation vault's collateral, never for more tokens than are free to burn and never nothing. A vault is recovered only when nothing of it is left to redeem. No limit blocks a liquidation.",
     ["inputs", "histories", "schedules"], "all histories that lead to a liquidation with requests of every kind under way, prices at and around the threshold, nominated and partly slashed collateral",
     "Unit tests liquidate one vault with mocked pools; what happens to requests under way and to shares of collateral depends on the history and on rounding.",
     [V + "lib.rs", V + "types.rs", R_, I_, P_], ["liquidate_vault, RichVault::liquidate, slash_for_to_be_redeemed, slash_to_liquidation_vault, redeem_tokens_liquidation, recover_vault_id"],
     state=[("LiquidationVault", "obligations and collateral of liquidated vaults", V + "lib.rs"), ("liquidated_collateral", "what is kept for redeems under way", V + "types.rs")],
     note=BRIDGE_NOTE + " Known finding: a vault that is recovered while issue or replace requests to it are under way can never settle them; such recoveries are left out of the histories.")
prop("C19", "Issuing: tokens for exactly what was paid, griefing collateral back or slashed",
     "A request to issue is taken exactly when the vault accepts issues, is not banned, can back the amount and the amount is above the dust; it locks griefing collateral in proportion to the amount, in the currency asked for. Executing it against a payment mints exactly what was paid less the fee: an underpayment settles for what was paid (only for the requester, who forfeits the missing share of the griefing collateral), an overpayment for as much as the vault can still back, an exact payment for the request. A cancelled request can still be executed when the vault can back it, a completed one never again. Others can cancel only an expired request, which forfeits all griefing collateral; the requester can cancel earlier and forfeits the elapsed share. A liquidated vault's issues cost the requester nothing when cancelled.",
     ["inputs", "histories", "schedules"], "all amounts paid, requesters and callers, vault states and prices between request and execution, and times around the expiry",
     "Unit tests mock the vault registry and cover one amount per branch.",
     [I_, V + "lib.rs", "crates/issue/src/types.rs"], ["_request_issue, _execute_issue, decrease_issue_amount, update_issue_amount, try_increase_to_be_issued_tokens, _cancel_issue"],
     state=[("IssueRequests", "requests and their status", I_)], note=BRIDGE_NOTE)
prop("C20", "Redeeming: paid in full, or retried or reimbursed at the vault's expense",
     "A request to redeem locks the user's tokens, is taken exactly when the vault is active, not banned, has issued tokens that are not already promised, and the amount left after fees is above the dust; it fixes a premium (for a vault below the premium threshold, up to what restores the secure threshold) and takes the tokens out of the vault's request for replacement. Executing it burns what was redeemed, passes the fee on and pays the premium; it can be done once. After the request expired only its redeemer can cancel it: either the tokens come back and the vault pays a fine, or the user is reimbursed in collateral with the fine and the tokens go to the vault, or are burnt when it could not keep them and can be minted again once it can back them; either way the vault is banned for a while. A vault can redeem its own tokens directly, for a fee unless it redeems all.",
     ["inputs", "histories", "schedules"], "all amounts, prices, thresholds and times around the expiry, callers, vault states between request and settlement, and repeated or wrong payments",
     "Unit tests mock the vault registry and cover one path each; premium, fine and reimbursement depend on collateral and price at the time.",
     [R_, "crates/redeem/src/types.rs", V + "lib.rs"], ["_request_redeem, _execute_redeem, _cancel_redeem, _mint_tokens_for_reimbursed_redeem, self_redeem, get_vault_max_premium_redeem"],
     state=[("RedeemRequests", "requests and their status", R_)], note=BRIDGE_NOTE)
prop("C21", "Replacing: obligations move with their guarantees, or stay where they were",
     "A vault can ask to be replaced for tokens it has issued and not promised otherwise, unless it takes nominations; it locks griefing collateral in proportion. Another vault takes over up to what is asked for, above the dust, with collateral of its own that keeps it secure; the griefing collateral follows in proportion. When the payment between the vaults is proven, exactly the tokens taken over move from the one to the other and the griefing collateral comes back; a cancelled replacement can still be executed when both vaults can carry it. An expired replacement can always be cancelled by anyone: the obligations fall back, the griefing collateral goes to the new vault, which gets back the extra collateral where it does not need it. Asking less, redeems and liquidation release the griefing collateral in proportion, and it never exceeds what is locked.",
     ["inputs", "histories", "schedules"], "all pairs of vaults, amounts at and around what is asked for, liquidations and redeems in between, times around the expiry",
     "Unit tests mock the vault registry; proportional release over several partial replacements and redeems is never exercised.",
     [P_, V + "lib.rs", "crates/replace/src/types.rs"], ["_request_replace, _accept_replace, _execute_replace, _cancel_replace, _withdraw_replace_request, decrease_to_be_replaced_tokens, replace_tokens, cancel_replace_tokens"],
     state=[("ReplaceRequests", "requests and their status", P_), ("to_be_replaced_tokens, replace_collateral, active_replace_collateral", "what is asked for and what is locked for it", V + "types.rs")], note=BRIDGE_NOTE)
prop("C22", "Nominators' collateral: within limits, withdrawable, and refunded in full",
     "Others can put collateral behind a vault exactly when nomination is enabled, the vault has opted in, and the nominated collateral stays within the limit it set. A nominator withdraws up to what is theirs, at any time it leaves the vault secure; the operator's withdrawals are bound by the same threshold. A vault opts out only when it is secure without the nominated collateral; then every nominator's collateral and earned rewards stay claimable from the closed pool, by them alone and once, and the amounts returned leave the locked total exactly once. Slashes and liquidations take from nominators by their share, or after the operator's own.",
     ["inputs", "histories"], "all histories of nominating, withdrawing, slashing, opting out and in again, price changes and liquidations, with claims on closed pools in any order",
     "The nomination pallet has three unit tests; none opts out after a slash or claims from a closed pool.",
     [N_, V + "pool_manager.rs", V + "lib.rs", "crates/staking/src/lib.rs"], ["_deposit_collateral, _withdraw_collateral, _opt_out_of_nomination, set_nomination_limit, PoolManager, force_refund"],
     state=[("Vaults, NominationLimit", "who takes nominations and how much", N_)], note=BRIDGE_NOTE)
prop("C23", "Fees and rewards reach stakers by what they back, and can always be paid",
     "Every fee collected and every reward granted goes to the collateral currencies by the value they can back, there to the vaults by the collateral they have at their own secure threshold, and there, after the operator's commission, to operator and nominators by stake; a vault that accepts no issues, or is liquidated, takes no share, and with no stake anywhere fees go to the treasury. Collecting pays exactly what the pools owe the caller and leaves nothing; before any stake or setting changes what was earned is settled by the old one. The fee account always holds what all pools together owe.",
     ["inputs", "histories"], "all histories of fees, rewards, price changes, deposits, withdrawals, slashes, settings, commissions, liquidations and recoveries, collected in any order by anyone",
     "Unit tests distribute once with fixed stakes; which stake counts when, and that what is owed is covered, depends on the order of everything that moves stake.",
     [F_, V + "pool_manager.rs", "crates/reward/src/lib.rs"], ["distribute_rewards, distribute_all_vault_rewards, withdraw_vault_rewards, PoolManager::update_reward_stake/on_vault_settings_change/on_exchange_rate_change, commission"],
     state=[("Commission", "the operator's share before the stakers'", F_)], note=BRIDGE_NOTE + " A change of the currency-wide secure threshold is followed when a vault's stake or settings change next.")
prop("C24", "Prices are the median of fresh reports, and never outlive them",
     "Only accounts the root has authorized can report values, and nothing but their reports makes a price. When a block begins, every price on which there are new reports, or in which a report has run out, is made anew: it is the median (with an even number, the mean of the middle two, rounded down) of the latest report of every reporter that is no older than the maximum delay, whatever the values are; without any there is no price, and whatever needs one is refused. Those who use an exchange rate are told when it changes. Amounts convert at the price exactly, rounded down, between wrapped and collateral, and between two collaterals through wrapped; what does not fit is refused.",
     ["inputs", "histories", "schedules"], "all values up to the largest representable, any number of reporters and things reported on, authorizations withdrawn in between, and times at and around the expiry of each report",
     "Unit tests feed one or three values once; expiry of some of the reports, removed reporters and values near the representable limit are not combined.",
     [O_], ["feed_values, begin_block, update_aggregate, median, is_outdated, convert"],
     state=[("RawValues, Aggregate, ValidUntil, RawValuesUpdated", "reports, prices, their expiry and what is to be made anew", O_)])
