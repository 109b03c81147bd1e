#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readable editing)."""
import json
C='contracts/core/src/'; A='contracts/airdrop/src/'; P='contracts/periphery/src/'; K='packages/pool/src/'
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    return dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a)
L=[]
L.append(p('C01','Index tokens stay fully collateralised',
 'After every transaction the index contract holds, in every asset, at least what redeeming the whole outstanding supply at the current portfolio units would pay, plus all streaming fees collected but not yet paid out, plus any reserve set aside by a running rebalance. A transaction that fails leaves every balance, unit and setting exactly as it was.',
 ['histories','inputs','configurations'],
 'every sequence of mint, burn, realize, fee update, pause, rebalance init/trade/finalize and time passing, by any sender with any funds, for every portfolio, fee setting and swap price',
 'Unit tests call one handler at a time on mocked storage with no bank; none tracks contract balances across operations, and rounding losses only show up over sequences.',
 [C+'execute/token.rs',C+'state/units.rs',C+'state/fee.rs',C+'execute/fee.rs',C+'execute/gov/update.rs',C+'execute/rebalance/trade/deflate.rs',C+'execute/rebalance/trade/inflate.rs'],
 [('mint collateral computation',C+'state/units.rs calc_require_amount / calc_refund_amount'),('streaming fee collection',C+'state/fee.rs StreamingFee::collect'),('rebalance unit accounting',C+'execute/rebalance/trade/*.rs')],
 [('portfolio units','asset amount backing one index token'),('collected fees','asset amounts owed to the collector')]))
L.append(p('C02','Reported supply equals index tokens in circulation',
 'The total supply the contract reports always equals the index tokens minted minus burned on chain, which is the sum of all holders\' balances. Only a successful mint raises it and only a successful burn lowers it, by exactly the amount minted or destroyed, and neither leaves index tokens behind in the contract.',
 ['histories','inputs'],
 'every sequence of operations with any senders, receivers, amounts and fee settings',
 'Tests compare the stored number after a single mint or burn; none reconciles it with the tokens actually issued by the chain over a history or with fee transfers.',
 [C+'execute/token.rs',C+'contract.rs',C+'query.rs'],
 [('supply update in mint and burn',C+'execute/token.rs mint / burn'),('denom creation reply',C+'contract.rs reply')]))
L.append(p('C03','Mint charges exactly what the portfolio requires',
 'A successful mint of N index tokens takes from the attached coins, for each portfolio asset, N times its current unit rounded up to a whole base unit (and at least one), returns every other attached coin in full to the refund address, sends N times the mint fee rate (rounded down, at least one when a fee is set) to the fee collector and the rest of N to the receiver. If any portfolio asset is missing or short, or any coin outside the portfolio is attached, the mint is refused; receiver and refund address default to the sender.',
 ['inputs','configurations','histories'],
 'every mint amount, portfolio, unit with up to 18 decimals, fee setting, combination of attached coins (missing, short, exact, surplus, foreign) and optional addresses, in any reachable state',
 'Tests use a handful of round amounts and units whose product is an integer, so rounding, minimum-charge, refund and recipient mix-ups are not reached.',
 [C+'execute/token.rs',C+'state/units.rs'],
 [('required funds and refund',C+'state/units.rs calc_refund_amount'),('fee and recipient messages',C+'execute/token.rs mint')]))
L.append(p('C04','Burn pays out exactly the proportional redemption',
 'A successful burn of N index tokens sends N times the burn fee rate (rounded down) to the fee collector, destroys the remainder, and pays the redeem address (the sender by default) for every portfolio asset the remainder times the current unit rounded down, and nothing else. Consequently no sequence of mints and burns by one account, with no time passing, ever increases its holdings of any asset or lowers what the other holders\' tokens redeem for.',
 ['inputs','histories','configurations'],
 'every burn amount, portfolio, fee setting and redeem address in every reachable state, and every mint/burn sequence up to the bound',
 'Tests check one burn with round numbers; profit from rounding needs sequences and fractional units.',
 [C+'execute/token.rs',C+'state/units.rs'],
 [('burn redemption',C+'execute/token.rs burn'),('unit multiplication',C+'state/units.rs calc_require_amount')]))
L.append(p('C05','Streaming fees accrue exactly once and reach only the collector',
 'For every second in which streaming fees are set, not frozen and no rebalance is running, each portfolio unit shrinks by the per-second rate compounded ((1+rate)^seconds - 1, never more than the whole unit), and exactly the value removed from holders (shrinkage times supply) becomes payable to the fee collector: no second is charged twice, skipped, or charged for a frozen or rebalancing period, whichever operation triggers the accounting. Fees accrued are paid out in full, exactly once, to the collector they accrued for, also when governance replaces the fee settings, and only the collector can trigger a payout.',
 ['histories','schedules','configurations'],
 'every interleaving of time steps with mint, burn, realize, fee updates, freezes and rebalances, for every legal rate',
 'Tests call the accrual function once with hand-picked state; double charging, lost fees on settings changes and freeze windows need histories over time.',
 [C+'state/fee.rs',C+'execute/fee.rs',C+'contract.rs',C+'execute/gov/update.rs',C+'execute/rebalance/init.rs',C+'execute/rebalance/finalize.rs'],
 [('accrual',C+'state/fee.rs StreamingFee::collect'),('which messages collect',C+'contract.rs execute'),('payout',C+'execute/fee.rs realize_streaming_fee'),('settings replacement',C+'execute/gov/update.rs update_fee'),('freeze/unfreeze',C+'execute/rebalance/init.rs, finalize.rs')]))
L.append(p('C06','Fee settings always stay within their legal bounds',
 'Mint and burn fee rates, when set, are always strictly between 0 and 1, and a streaming rate, when set, is always positive and at most the documented cap (about 100% per year, 0.000000021979553 per second); instantiation or a fee update outside these bounds is refused and changes nothing. A successful fee update makes exactly the submitted collector, rates and freeze flag current.',
 ['inputs','configurations','histories'],
 'every combination of boundary and interior rates for the three fees, at instantiation and at every later update, from every reachable state',
 'Tests try a few values of one field at a time; combinations and the update path after other operations are not enumerated.',
 [C+'state/fee.rs',C+'contract.rs',C+'execute/gov/update.rs'],
 [('rate validation',C+'state/fee.rs check_rates'),('update',C+'execute/gov/update.rs update_fee'),('instantiate',C+'contract.rs instantiate')]))
L.append(p('C07','Only governance governs, and handover takes two steps',
 'Pausing, releasing, changing fees, reserve asset, trade routes or rebalance manager, starting a rebalance, and proposing or revoking a new governor succeed only for the current governor; any other sender is refused without effect. Governance changes only when the proposed account itself accepts a proposal that has been neither revoked nor already accepted, at most one proposal is open at a time, and from that moment the old governor has no rights.',
 ['histories','inputs'],
 'every sequence of governance and other messages from governor, proposed governor, previous governor, manager and outsiders',
 'Tests exercise each message from one or two senders; sequences such as propose-revoke-accept or acting after handover are not covered exhaustively.',
 [C+'execute/gov/update.rs',C+'execute/gov/mod.rs',C+'execute/gov/pause.rs',C+'execute/rebalance/init.rs',C+'state/config.rs'],
 [('authorisation',C+'state/config.rs check_gov'),('two-step handover',C+'execute/gov/update.rs update_gov / accept_gov / revoke_gov')],
 [('governor and pending governor','reported by the configuration query')]))
L.append(p('C08','Pause blocks mint and burn exactly while it is in force',
 'From a successful pause until the governor releases it or its expiry time is reached (whichever is first; never, if no expiry was given), every mint and burn is refused; at all other times pausing never blocks them. Pausing requires an expiry strictly in the future and that no pause is in force, releasing requires one in force, and the configuration query reports the pause state effective at the asked time.',
 ['histories','schedules','inputs'],
 'every sequence of pause (all expiries around now), release, time steps, mints, burns and queries at past/present/future times',
 'Tests set one expiry and one block time; boundaries, re-pausing after expiry and interplay with other updates are not enumerated.',
 [C+'execute/gov/pause.rs',C+'state/pause.rs',C+'execute/token.rs',C+'query.rs'],
 [('expiry evaluation',C+'state/pause.rs refresh'),('pause/release',C+'execute/gov/pause.rs')]))
L.append(p('C09','A rebalance excludes minting and burning and runs under its rules',
 'At most one rebalance exists at a time; it starts only if each asset to deflate is in the portfolio with a target not above its current unit, and both asset lists are non-empty, duplicate-free, disjoint, and every inflation weight is positive. While it runs, mint, burn, fee updates, reserve asset changes and a second start are refused and no streaming fee accrues; trading and finalizing are open to the appointed manager only (to anyone if none is appointed) and impossible when no rebalance runs, and after it ends normal operation resumes.',
 ['histories','inputs','configurations'],
 'every sequence of rebalance, token, governance and time operations by governor, manager, previous manager and outsiders, for every shape of deflation and inflation list',
 'Tests place a rebalance record in storage and call one handler; transitions between phases and every operation in every phase are not explored.',
 [C+'execute/rebalance/init.rs',C+'execute/rebalance/trade/mod.rs',C+'execute/rebalance/finalize.rs',C+'state/rebalance.rs',C+'execute/token.rs',C+'execute/gov/update.rs'],
 [('start validation',C+'state/rebalance.rs validate'),('phase guards','on-rebalancing checks in token.rs, update.rs, init.rs'),('manager checks',C+'execute/rebalance/trade/mod.rs, finalize.rs')]))
L.append(p('C10','Rebalance trades stay within targets, limits and swap results',
 'A deflating trade never sells an asset below its target and records exactly what the swap took and gave; the proceeds are split among the inflation assets in proportion to their weights. An inflating trade never spends more than the reserve set aside for that asset and adds exactly what the swap returned; trades touch no other asset, respect the caller\'s price limit, the per-trade maximum and the cooldown since the last trade on that route, and trades in the reserve asset itself move units one-to-one without a swap.',
 ['histories','inputs','schedules'],
 'every sequence of trades with all boundary amounts, limits, times and swap prices, on single- and multi-hop routes',
 'Tests run single trades at one price on a mocked querier and never execute the swap; conservation across trades, cooldown boundaries and weight splitting are sampled once.',
 [C+'execute/rebalance/trade/deflate.rs',C+'execute/rebalance/trade/inflate.rs',C+'execute/rebalance/trade/mod.rs',C+'state/rebalance.rs',C+'state/units.rs'],
 [('deflate',C+'execute/rebalance/trade/deflate.rs'),('inflate',C+'execute/rebalance/trade/inflate.rs'),('cooldown',C+'state/rebalance.rs assert_cooldown')],
 [('reserve units','reserve asset per index token earmarked for each inflation asset')]))
L.append(p('C11','A rebalance ends only at its targets and can always reach its end',
 'Finalizing succeeds only when every deflated asset is at or below its target and the whole reserve has been spent, up to amounts worth less than one base unit of the asset over the entire supply; it removes assets with zero unit from the portfolio, changes no other unit by more than that rounding amount, and resumes fee accrual from that moment. From every state of a running rebalance with outstanding supply and working swap routes, some sequence of trades leads to a successful finalize, so rebalancing can never lock mint and burn for good.',
 ['histories','configurations','inputs'],
 'every reachable state of a rebalance within the bound, for supplies and units whose products are not whole numbers and for swap prices at which every amount is tradable',
 'Tests check finalize on hand-made unit lists; reachability of a finalizable state from every mid-rebalance state is a liveness question no example test addresses.',
 [C+'execute/rebalance/finalize.rs',C+'execute/rebalance/trade/deflate.rs',C+'execute/rebalance/trade/inflate.rs'],
 [('end conditions',C+'execute/rebalance/finalize.rs finalize'),('pruning and unfreezing',C+'execute/rebalance/finalize.rs')]))
L.append(p('C12','Queries and simulations tell what execution will do',
 'A mint or burn simulation for the current time predicts exactly the coins spent, refunded and paid and the index tokens received by executing that operation immediately afterwards, and fails when the execution would fail for lack of funds. Fee and portfolio queries for a future time report exactly the units and collected fees the contract will have if it next accounts fees at that time.',
 ['inputs','histories','configurations'],
 'every reachable state, mint/burn amount, attached funds and query time within the bound',
 'Tests check query results against literals on mocked storage; none executes the simulated operation and compares.',
 [C+'query.rs',C+'execute/token.rs',C+'state/fee.rs'],
 [('simulations',C+'query.rs simulate_mint / simulate_burn'),('time-parameterised queries',C+'query.rs get_fee / get_portfolio')]))
L.append(p('C13','Trade routes are stored, used and listed under the pair they trade',
 'A trade route set by governance is filed under the input asset and the last asset of its hops, replaces only that pair\'s previous entry and resets its cooldown, and rebalance trades for a pair use exactly that entry. Lookup returns the entry as set, and paged listing for an input asset visits every stored pair exactly once in ascending or descending order, with an exclusive start, for every page size up to the maximum.',
 ['histories','inputs','configurations'],
 'every sequence of route updates (single- and multi-hop) and every page size, order and start key over the resulting tables',
 'Tests register a single one-hop route; multi-hop pairs, overwrites and paging are not enumerated.',
 [C+'execute/gov/update.rs',C+'query.rs','packages/interface/src/types.rs','packages/interface/src/lib.rs'],
 [('filing key','packages/interface/src/types.rs denom_last'),('update',C+'execute/gov/update.rs update_trade_info'),('paging','packages/interface/src/lib.rs range_option')]))
L.append(p('C14','Holders can always redeem',
 'Whenever the contract is not paused and no rebalance is running, any holder can burn any positive part of their index tokens, and anyone can mint by sending the required coins, no matter how long the contract has been idle and whatever legal fee settings, history of operations and small amounts are involved. Likewise the collector can always realize.',
 ['histories','configurations','inputs'],
 'every reachable unpaused state, every legal fee combination, burn amounts down to one base unit and idle periods up to decades',
 'Tests burn comfortable amounts right after minting; failures need tiny amounts, extreme fees or long idle periods.',
 [C+'execute/token.rs',C+'state/fee.rs',C+'contract.rs'],
 [('burn',C+'execute/token.rs burn'),('accrual before burn',C+'state/fee.rs collect')]))
L.append(p('C15','Contract upgrades only move forward',
 'Migrating any of the three contracts without force succeeds only if the stored contract name is its own and the stored version is strictly lower in semantic-version order than the new one, and then records the new version; otherwise it is refused and the stored version is unchanged. With force it always records the contract\'s own name and version, and migration never alters any other state.',
 ['inputs','histories'],
 'every stored name/version pair from a grid around the current version (including multi-digit components and pre-releases), each contract, force on/off, from non-initial states',
 'The existing test covers a few versions of the helper alone, not the contracts\' migrate entry points or state preservation.',
 ['packages/utils/src/lib.rs',C+'contract.rs',A+'contract.rs',P+'contract.rs'],
 [('version check','packages/utils/src/lib.rs store_version'),('migrate entry points','contracts/*/src/contract.rs migrate')]))
L.append(p('A01','Every airdrop is funded for exactly what it still owes',
 'For every asset the airdrop contract always holds at least the sum over open airdrops of amount funded minus amount claimed, and each airdrop\'s reported funded and claimed totals equal what was actually paid in for it and paid out by it. Claims never exceed an airdrop\'s own funding, and no operation on one airdrop changes another.',
 ['histories','inputs'],
 'every sequence of register, fund, claim and close over several airdrops sharing creators, assets, Merkle trees and claimers',
 'Tests run one airdrop with mocked balances; cross-airdrop isolation and totals over sequences are not explored.',
 [A+'execute/claim.rs',A+'execute/fund.rs',A+'execute/close.rs',A+'execute/register.rs',A+'state.rs'],
 [('claim accounting',A+'execute/claim.rs'),('funding',A+'execute/fund.rs, register.rs'),('closing',A+'execute/close.rs')]))
L.append(p('A02','Open airdrops pay each listed account its amount at most once',
 'A claim on an open airdrop pays exactly the amount, to exactly the account (the sender by default), for which a valid Merkle proof against that airdrop\'s root is given, whoever submits it, and each account is paid at most once per airdrop. Any other account, amount, proof, root or repeated claim is refused without effect, and a refused claim never uses up the right to claim later.',
 ['histories','inputs'],
 'every pair of account and amount with every proof drawn from trees of several shapes, in every order, over several airdrops, by any sender',
 'Tests claim with a few valid proofs and one or two invalid ones; exhaustive account/amount/proof mismatches and repetition across airdrops are not covered.',
 [A+'execute/claim.rs',A+'verify.rs',A+'state.rs'],
 [('Merkle verification',A+'verify.rs verify_merkle_proof'),('claim log',A+'state.rs assert_not_claimed')]))
L.append(p('A03','Bearer airdrops pay only on the registered signer\'s signature',
 'A bearer airdrop can be registered only with a valid signature by its signer key over the signer\'s own address. A bearer claim pays once per claim code, only if the code and amount are in the airdrop\'s Merkle tree and the registered signer signed exactly that code, receiving account and amount; changing the account, amount, code or signer, or reusing a code, is refused without effect.',
 ['histories','inputs'],
 'every combination of code, account, amount, proof, signature (right/wrong key, every mismatched field) and airdrop, in every order up to the bound',
 'Tests use one precomputed signature; the mismatch matrix and reuse across accounts and airdrops are not enumerated.',
 [A+'execute/claim.rs',A+'execute/register.rs',A+'verify.rs'],
 [('signature check',A+'execute/claim.rs claim_bearer'),('registration proof',A+'execute/register.rs register_bearer')]))
L.append(p('A04','Only the creator funds or closes, and closing returns the remainder once',
 'Funding and closing succeed only for the airdrop\'s creator while it is open, and funding or registering requires exactly one positive coin of the airdrop\'s asset. Closing pays exactly the unclaimed remainder to the creator once and marks it closed at that height; afterwards funding, claiming and closing it are refused forever.',
 ['histories','inputs'],
 'every sequence of register, fund, claim and close by creator and others, with every shape of attached coins (none, zero, wrong, several, exact)',
 'Tests check single refusals; orders such as close-claim-close and all payment shapes are not enumerated.',
 [A+'execute/fund.rs',A+'execute/close.rs',A+'execute/claim.rs'],
 [('creator and open checks',A+'execute/fund.rs, close.rs'),('remainder',A+'execute/close.rs')]))
L.append(p('A05','Airdrop ids, labels and listings are complete and unambiguous',
 'Ids are assigned 0,1,2,... in registration order and never reused; a label belongs to its creator\'s namespace, is unique within it, and always resolves to the airdrop it was registered with. Every listing (by id, type, label, creator; claims; labels) paged with any size up to the maximum, in either order and with exclusive start, visits each matching entry exactly once in order with its current data, and nothing else.',
 ['histories','inputs','configurations'],
 'every sequence of registrations (with and without labels, colliding labels, several creators and types), claims, funding and closing up to the bound, and every page size, order and start key',
 'Tests list a fixed set once; paging boundaries and index consistency after updates are not enumerated.',
 [A+'execute/register.rs',A+'state.rs',A+'query/airdrop.rs',A+'query/claim.rs',A+'query/label.rs','packages/interface/src/lib.rs'],
 [('ids and labels',A+'execute/register.rs, state.rs save_label'),('secondary indexes',A+'state.rs airdrops'),('paging','packages/interface/src/lib.rs range_option')]))
L.append(p('A06','Claim verification agrees with claiming',
 'For an airdrop with enough funds and a claim not made before, the verification query answers valid exactly when submitting the same claim would pay out, for open and bearer airdrops alike, and it never answers valid for a closed airdrop.',
 ['inputs','histories'],
 'every claim payload of A02 and A03 in every reachable airdrop state, comparing the query with the outcome of executing the claim',
 'There is no test of the verification query at all.',
 [A+'query/claim.rs',A+'execute/claim.rs',A+'verify.rs'],
 [('verification query',A+'query/claim.rs verify_claim')]))
L.append(p('P01','The swap router keeps nothing',
 'Every successful router operation leaves the router contract\'s balance of every asset at zero if it was zero before: whatever the user sent ends up as index tokens, output asset, refund, or in the pools. A failed operation leaves all balances as they were.',
 ['inputs','configurations','histories'],
 'every router operation with every amount, fee setting, portfolio (with and without the user\'s asset), pool mix and single/multi-hop routes in the bound, one after another',
 'The router has no unit tests at all; its integration tests need a chain binary and print results without asserting.',
 [P+'execute.rs',P+'lib.rs',K+'sim/route.rs'],
 [('operation message plans',P+'execute.rs'),('final refund',P+'execute.rs finish_operation')]))
L.append(p('P02','Router users never get less or pay more than they agreed to',
 'Minting with exact input gives the caller at least the requested minimum of index tokens, after the index contract\'s mint fee, and minting an exact output spends no more than was sent and mints exactly that amount; burning exact input burns exactly what was sent and delivers at least the requested minimum output; burning for an exact output never burns more than was sent, refunds the rest, and delivers the requested output to within the router\'s 5000-base-unit search tolerance (a small rounding margin apart). Otherwise the operation fails and nothing moves; index tokens, output and refunds all go to the caller.',
 ['inputs','configurations'],
 'every operation, amount, minimum/maximum around the achievable values, fee setting, portfolio and pool mix in the bound',
 'No existing test asserts any slippage guarantee of the router.',
 [P+'execute.rs',K+'sim/mod.rs',K+'sim/route.rs'],
 [('minimum/maximum enforcement',P+'execute.rs, '+K+'sim/route.rs to_msgs')]))
L.append(p('P03','Router cleanup cannot be triggered from outside',
 'The router\'s final sweep can be executed only by the router itself as part of one of its own operations; any other sender is refused and no funds move, whatever balance the router holds.',
 ['inputs','histories'],
 'every sender (users, governor, index contract, collector), asset and recipient, with and without balance in the router, before and after every router operation',
 'Not covered by any test.',
 [P+'execute.rs',P+'contract.rs'],
 [('self-call check',P+'execute.rs finish_operation')]))
L.append(p('P04','Router quotes match router execution',
 'A burn quote for an exact input predicts exactly the index tokens destroyed, the coins redeemed and the output that executing it in the same chain state plans to deliver, and the input quoted for minting an exact output suffices for executing that mint. Quotes change nothing.',
 ['inputs','configurations'],
 'every amount, fee setting, portfolio and pool mix in the bound, each quote followed by its execution from the same state',
 'No existing test compares a quote with its execution.',
 [P+'query.rs',P+'execute.rs'],
 [('quotes',P+'query.rs')]))
L.append(p('M01','Fractional power is accurate to its stated precision',
 'For every base strictly between 0 and 2 and every exponent, the power function returns the mathematical power to within its stated series precision (1e-8, scaled by how fast the series converges for that base); it is exact to decimal rounding for whole exponents, and 1 for exponent 0. A zero base and bases of 2 or more are refused.',
 ['inputs'],
 'every base and exponent on a dense grid, including whole, fractional, below-one and between-one-and-two exponents, and base extremes',
 'Tests check a few literal pairs.',
 ['packages/math/src/pow.rs'],
 [('power',"packages/math/src/pow.rs pow / pow_int / pow_approx")]))
L.append(p('M02','Weighted-pool estimates follow the pool invariant and compose',
 'The estimated output for an input (and input for an output) of a weighted pool equals the value given by the pool\'s weighted constant-product invariant with the swap fee taken from the input, within the power function\'s precision, output rounded down and input rounded up; a fair round trip never yields a profit beyond that precision. Consecutive estimates on the same pool, multi-hop routes, and several index assets routed through one pool, account for the earlier estimated swaps, moving only the two swapped balances by exactly the swapped amounts.',
 ['inputs','histories'],
 'every pool from a grid of balances, weights and fees, every sequence of estimated swaps up to the bound, every multi-hop route over the pools',
 'The pool tests need a chain binary and do not run; weights with ratio between 1 and 2 and chained estimates are not covered.',
 [K+'weighted.rs',K+'sim/index_in.rs',K+'sim/index_out.rs'],
 [('invariant solution',K+'weighted.rs calc_out_amount_given_in / calc_in_amount_given_out'),('balance update',K+'weighted.rs apply_new_pool_assets'),('route folding',K+'sim/index_in.rs, index_out.rs')]))
L.append(p('M03','Amount search never oversteps and reports what it found',
 'Searching for the index amount affordable with a given input (or needed for a given output) returns either an error or an amount whose own estimate is no more than the target and within 5000 base units of it, together with routes that sum to exactly that estimate. A caller\'s minimum (or maximum) index amount is honoured: the revised amount lies between the limit and the optimum.',
 ['inputs','configurations'],
 'every target, initial guess, limit, portfolio and pool mix on a grid spanning several orders of magnitude',
 'The simulator tests do not run here and use one scenario.',
 [K+'sim/mod.rs',K+'sim/index_in.rs',K+'sim/index_out.rs'],
 [('search loops',K+'sim/index_in.rs search_efficient_amount_for_output, index_out.rs search_efficient_amount_for_input')]))
if __name__=='__main__':
    with open('/verif/properties.jsonl','w') as f:
        for x in L: f.write(json.dumps(x)+'\n')
    print(len(L))
