#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that the
long statements stay readable in review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

D = "internal/core/domain/"
A = "internal/core/application/"
BG = "internal/infrastructure/storage/db/badger/"
IM = "internal/infrastructure/storage/db/inmemory/"

p("C01", "Trades only move forward through their life cycle",
  """A trade goes from proposed to accepted to completed to settled: it can be accepted only while it is an unfailed
  proposal, completed only while it is accepted, unfailed and before its deadline, and repeating a step already taken
  leaves everything recorded for that step unchanged. It becomes expired only once its deadline has passed. A failure
  is recorded once, keeps the first failure message, and only a settlement on chain overrides it.""",
  ["histories", "inputs"],
  "every sequence of propose, accept, complete, settle, fail and expire calls with any mix of valid and invalid messages, with the clock before, at or after the deadline",
  "The unit tests drive one call from one hand-made status at a time; the rules are about arbitrary call sequences and the position of the clock.",
  [D+"trade_service.go", D+"trade_model.go"],
  [("status guards of Propose/Accept/Complete/Settle/Fail/Expire", D+"trade_service.go")],
  [("Trade.Status", "code and failed flag", D+"trade_model.go"), ("Trade.ExpiryTime", "deadline", D+"trade_model.go")],
  ["domain.Trade public methods"])

p("C02", "A coin is reserved for at most one live trade",
  """Accepting a proposal reserves every wallet coin used in the accepted transaction for that trade before the
  acceptance is returned, and no other proposal, however it is interleaved, is accepted with a coin that is reserved
  for another live trade. The reservation lasts until the coin is spent or the trade fails or expires, and then the
  coins of the failed or expired trade, and only those, become available again.""",
  ["schedules", "histories"],
  "every interleaving of concurrent proposals, completions, failures and expirations on one wallet",
  "The tests run parallel orders against a mocked transaction builder that always returns the same coins, and assert only that calls succeed.",
  [A+"trade_service.go", BG+"unspent_repository_impl.go", IM+"unspent_memory_repository_impl.go"],
  [("coin selection from available coins followed by locking", A+"trade_service.go"), ("lock records", BG+"unspent_repository_impl.go")],
  [("lock record", "trade that reserved a coin", BG+"unspent_repository_impl.go")],
  ["SwapAccept replies", "unspent repository content"])

p("C03", "The coin store tracks every coin and balance exactly",
  """A coin added to the wallet's coin store stays there with the value, asset and address it was first added with; it
  is available exactly when it is confirmed, not spent and not reserved, and a spent coin never becomes available or
  counted again. The total balance of an asset over a set of addresses is the sum of its confirmed unspent coins there
  and the unlocked balance is that of its available coins. A reservation is released only by unlocking or spending the
  coin, keeps its first holder, and is never created for an unknown coin.""",
  ["histories", "inputs", "configurations"],
  "every sequence of add, confirm, spend, lock, unlock and query calls over any coins and addresses, on both storage back ends",
  "Each test applies one operation to one fixed set of coins; wrong results need particular orders (confirm after lock, re-add after spend, unlock of another trade's coin).",
  [BG+"unspent_repository_impl.go", IM+"unspent_memory_repository_impl.go", D+"unspent_service.go"],
  [("unspent repository", BG+"unspent_repository_impl.go"), ("unspent repository", IM+"unspent_memory_repository_impl.go")],
  [("Unspent.Spent/Locked/Confirmed", "coin status", D+"unspent_model.go")], ["domain.UnspentRepository"])

p("C04", "A market trades only when funded, priced and open",
  """A market can be opened only once it holds exactly two assets, one of them the base asset, and, when it uses
  externally supplied prices, only once both prices are set; quotes are given only while it is open. Its strategy and
  fees change only while it is closed, fees always within their bounds (percentage fee from 0 to 99.99%, fixed fees
  both zero or both positive), and a rejected change leaves the market exactly as it was.""",
  ["histories", "inputs"],
  "every sequence of funding, opening, closing, strategy, fee and price updates with valid and invalid arguments, stored in either back end",
  "Tests check each method from one prepared market; they do not explore sequences or what a rejected call leaves behind, nor the stored copy.",
  [D+"market_service.go", D+"market_model.go", BG+"market_repository_impl.go", IM+"market_memory_repository_impl.go"],
  [("guards of market methods", D+"market_service.go"), ("stored market and prices", BG+"market_repository_impl.go")],
  [("Market.Tradable/Strategy/Price/Fee", "market configuration", D+"market_model.go")], ["domain.Market", "domain.MarketRepository"])

p("C05", "Each market keeps its own account and asset pair",
  """Every market is bound to its own wallet account and to one base/quote asset pair, which never change after it is
  funded, and looking a market up by quote asset or by account always gives the same market. Operator requests to open,
  close, price, configure or drop a market act on the market of the requested pair only; an unknown pair is refused
  and leaves every market untouched.""",
  ["histories", "inputs"],
  "every sequence of operator market requests (create, fund, open, close, fees, price, strategy, drop) over several pairs",
  "Operator tests cover one market; cross-talk between markets, re-use of accounts after a drop and refused requests need histories over several pairs.",
  [A+"operator_service.go", BG+"market_repository_impl.go"],
  [("operator service", A+"operator_service.go")],
  [("market table", "account to market", BG+"market_repository_impl.go")], ["application.OperatorService"])

p("C06", "A wallet address is never handed out twice",
  """Each newly derived address of an account uses the next unused index of that account's external or internal chain,
  so no address is ever returned twice, and deriving in one account never changes another. The addresses an account
  reports, and the blinding key and derivation path of each, are exactly those derived so far. Deriving requires the
  wallet to be unlocked, and indices survive a restart.""",
  ["histories", "configurations"],
  "every sequence of derivations over accounts and chains, locks, unlocks and restarts, on both storage back ends",
  "Tests derive a few addresses in one account of one in-memory object.",
  [D+"vault_service.go", D+"vault_model.go", BG+"vault_repository_impl.go", IM+"vault_memory_implementation.go"],
  [("per-account derivation counters", D+"vault_service.go")],
  [("Account.LastExternalIndex/LastInternalIndex", "next index per chain", D+"vault_model.go")], ["domain.Vault", "domain.VaultRepository"])

p("C07", "The seed is usable only with the right passphrase",
  """Only the current passphrase unlocks the wallet; a wrong one is refused and leaves the wallet locked. While the
  wallet is locked its seed cannot be read and nothing can be derived, and it is never stored unencrypted. The
  passphrase changes only while the wallet is locked and only when the old one is right; afterwards only the new one works.""",
  ["histories", "inputs"],
  "every sequence of create, lock, unlock, change passphrase and seed reads with right and wrong passphrases, across restarts",
  "Tests check single calls; the property is about which passphrase works after any history, including failed changes.",
  [D+"vault_service.go", BG+"vault_repository_impl.go", A+"wallet_service.go"],
  [("lock state and passphrase hash", D+"vault_service.go")],
  [("Vault.PassphraseHash / EncryptedMnemonic", "seed protection", D+"vault_model.go")], ["domain.Vault", "application.WalletService"])

p("C08", "Protected calls need a macaroon that grants them",
  """Every operator and wallet call except the documented unauthenticated ones is refused unless it carries a valid
  macaroon that grants every permission the call requires, so a read-only macaroon never allows a change and a macaroon
  limited to one area never reaches another. The unauthenticated calls are only those needed to create, unlock or re-key the
  wallet and the public trading ones. Unary and streaming calls are treated alike, and a call with no declared permission is refused.""",
  ["inputs", "configurations"],
  "every RPC method of every registered service combined with every generated macaroon, none, a forged one, and one from another key",
  "The tests never exercise the interceptor against the whole method table.",
  ["internal/interfaces/grpc/interceptor/auth.go", "internal/interfaces/grpc/permissions/permissions.go", "pkg/macaroons/service.go"],
  [("auth interceptors", "internal/interfaces/grpc/interceptor/auth.go"), ("method permissions", "internal/interfaces/grpc/permissions/permissions.go")],
  [], ["gRPC interceptors"])

p("C09", "Macaroon keys are usable only while their store is open",
  """Macaroon root keys can be created or read only after the key store has been opened with its password; a wrong
  password is refused and leaves it closed. The root key of an id never changes once created, so macaroons baked earlier stay valid
  after relocking, restarting or changing the password. After a password change only the new password opens the store.""",
  ["histories", "crash_points"],
  "every sequence of create/unlock, bake, validate, change password and restart with right and wrong passwords and several root key ids",
  "Tests check each call once with the default root key.",
  ["pkg/macaroons/store.go", "pkg/macaroons/service.go"],
  [("root key storage", "pkg/macaroons/store.go")],
  [("encryption key and root key bucket", "root keys by id", "pkg/macaroons/store.go")], ["macaroons.RootKeyStorage", "macaroons.Service"])

p("C10", "The encrypted store keeps data secret and intact",
  """Values put in the encrypted store can be read back only while it is unlocked, always as last written in that
  bucket, and never appear in clear on disk. Only the current password unlocks it, and a failed unlock or password change
  changes nothing. A successful password change, and any lock or restart, keeps every bucket and every key and value intact.""",
  ["histories", "inputs", "crash_points"],
  "every sequence of bucket, put, get, remove, lock, unlock, change-password and reopen operations with arbitrary keys and values",
  "Tests use one bucket and a handful of well-behaved keys.",
  ["pkg/securestore/bolt/store.go"],
  [("encrypted bolt store", "pkg/securestore/bolt/store.go")],
  [("buckets", "encrypted key/value pairs", "pkg/securestore/bolt/store.go")], ["securestore.SecureStorage"])

p("C11", "Each event reaches exactly the webhooks registered for it",
  """Publishing an event posts its payload once for every webhook currently registered for that event or for all events, to its
  endpoint and no other; a registered secret authenticates the post with a token signed by it. Removing a hook removes that hook only; naming
  an unknown hook or event, an invalid endpoint or using a locked store changes nothing. Registrations survive
  restarts, interrupted calls can be repeated, and one failing endpoint does not stop the delivery to the others.""",
  ["histories", "inputs"],
  "every sequence of subscribe, unsubscribe, list, publish, lock, unlock and reopen over several events and endpoints, with endpoints failing",
  "The test registers each kind of hook once and removes it.",
  ["internal/infrastructure/pubsub/webhook/service.go", "internal/infrastructure/pubsub/webhook/webhook.go"],
  [("hook registry", "internal/infrastructure/pubsub/webhook/service.go")],
  [("hook buckets", "hooks and hook ids per event", "internal/infrastructure/pubsub/webhook/service.go")], ["ports.SecurePubSub", "HTTP posts"])

p("C12", "Observed transactions and addresses are reported until removed",
  """While it runs, the chain watcher reports every observed transaction as confirmed or unconfirmed according to the explorer, and the unspents of every
  observed address, on every round; an object is watched once however often it is added, removing it stops its reports
  and no other's, and explorer errors are reported and do not stop the watch. After it is stopped it makes no further
  explorer request and reports a final close.""",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of add, remove, start and stop with polling rounds, event consumption and explorer failures",
  "The tests watch a few fixed objects for a few hundred milliseconds of wall-clock time.",
  ["pkg/crawler/service.go", "pkg/crawler/observable.go"],
  [("crawler", "pkg/crawler/service.go")],
  [("observables", "watched objects", "pkg/crawler/service.go")], ["crawler.Service events"])

p("C13", "Stored records survive restarts and failed updates",
  """Whatever a repository call has acknowledged for trades, markets, prices, vault and reservations is returned unchanged by every
  later lookup, by whichever key, also after the daemon is restarted. An update whose function fails changes nothing, and
  the updates of one transaction take effect together or not at all. Updating one record never affects another.""",
  ["histories", "crash_points"],
  "every sequence of create, update, delete, lookup, aborted update, transaction and reopen over several records",
  "Tests check one call at a time on a fresh store that is never reopened.",
  [BG+"trade_repository_impl.go", BG+"market_repository_impl.go", BG+"vault_repository_impl.go", BG+"db_manager.go", IM+"trade_memory_repository_impl.go"],
  [("badger repositories and transactions", BG+"db_manager.go")],
  [("stores", "main and prices databases", BG+"db_manager.go")], ["ports.RepoManager"])

p("C14", "Completion broadcasts the agreed swap exactly when valid",
  """A completion request has effect only if it names an accepted, unfailed, unexpired trade and carries a valid final transaction; then that
  transaction is broadcast and, if the broadcast is accepted, its id is returned and the trade is recorded as completed, with its inputs spent. A refused completion
  broadcasts nothing, and a failed broadcast leaves the trade accepted so that it can be retried. A trade the counter-party cancelled is failed and never completed or broadcast afterwards.""",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of proposals, completions (valid, invalid, late, repeated, unknown), cancellations and explorer failures",
  "The test completes fresh trades with a mocked parser; repeats, cancellations, late and failing broadcasts are not covered.",
  [A+"trade_service.go"],
  [("TradeComplete", A+"trade_service.go")], [], ["application.TradeService", "explorer broadcasts"])

p("C15", "A confirmed swap settles its trade and releases its change",
  """When the chain watcher reports the transaction of a known trade as confirmed, the trade becomes settled with the block time,
  the wallet's outputs of that transaction become confirmed and available, its inputs become spent, the settlement is
  published once and the transaction is no longer watched. A confirmed payment into the wallet becomes an available coin; a transaction that concerns neither a
  trade nor the wallet, and a repeated report, change nothing. If a store access fails while a report is handled, nothing is left
  half done for good: either everything is recorded, or the trade is not settled, nothing is published, and the transaction goes on
  being watched, so that the next report of it completes the work. Objects to watch that were registered before watching started are watched once it starts.""",
  ["histories", "schedules"],
  "every order of confirmations, repeats, unknown transactions, payments, completions and start of observation, and every store access failing",
  "There is no test of the listener.",
  [A+"blockchain_listener.go", A+"types.go"],
  [("blockchain listener", A+"blockchain_listener.go")], [], ["repositories", "published messages", "crawler calls"])

p("C16", "Quotes never drain a market nor lose value",
  """For a market making its own prices, an automatic quote never asks the market to pay out all or more than its balance of an asset, and
  executing a quoted trade never decreases the product of the two balances beyond rounding (one smallest unit, and ratios computed to eight decimals); a larger amount given never
  receives less. For supplied prices the quote is the amount times the price with the fee on the market's side. Fees
  are always charged against the trader, never in its favour, and an amount that cannot be served is refused.""",
  ["inputs"],
  "all balances, amounts, fees, directions and fixed assets within bounds, for both strategies",
  "Tests check a few hand-computed numbers.",
  ["pkg/marketmaking/formula/balanced_reserves.go", D+"market_service.go", D+"pluggable_strategy.go", "pkg/mathutil/math.go"],
  [("pricing formulas", "pkg/marketmaking/formula/balanced_reserves.go")], [], ["domain.Market.Preview"])

p("C17", "Coin selection always covers the target with owned coins",
  """Selecting coins for a target amount of an asset succeeds exactly when the coins of that asset add up to the target; it
  returns distinct coins of that asset only, out of those offered, covering the target, and the change is exactly the
  excess; it takes as few coins as a total of at most ten times the target allows. It gives the same guarantee when several selections run at the same time.""",
  ["inputs", "schedules"],
  "all small multisets of coins, assets and targets, and concurrent selections",
  "Tests check a handful of lists, sequentially.",
  ["pkg/explorer/coinselection.go"],
  [("SelectUnspents", "pkg/explorer/coinselection.go")], [], ["explorer.SelectUnspents"])

p("C18", "Claiming a deposit credits exactly what the chain confirms",
  """A deposit claim is accepted only if every claimed output belongs to a confirmed transaction, exists and is owned by the account the claim is for; it is all or nothing: an accepted claim
  adds exactly those outputs to the wallet's coins as confirmed, and a refused one adds nothing and leaves the market as it was. A market is bound to a pair only by a claim that
  provides both its assets.""",
  ["inputs", "histories"],
  "every list of claimed outputs (owned, foreign, unconfirmed, unknown, wrong account, repeated) for fee and market accounts",
  "Tests make one successful claim per account.",
  [A+"operator_service.go"],
  [("claimDeposit", A+"operator_service.go")], [], ["application.OperatorService", "unspent repository"])

p("C19", "A payment out moves only requested, unreserved funds",
  """A withdrawal or wallet payment spends only coins that are confirmed, unspent and not reserved for a trade, pays every requested output in full to the requested
  address, and returns everything else, less the network fee, to the wallet. A request that
  exceeds the available balance, or names unknown assets or a missing market, is refused with nothing broadcast; coins used in a broadcast payment are no longer available.""",
  ["inputs", "histories"],
  "every payment request against every mix of available, reserved, spent and unconfirmed coins",
  "Tests make one successful withdrawal with a mocked explorer.",
  [A+"operator_service.go", A+"wallet_service.go", "pkg/wallet/transaction.go"],
  [("WithdrawMarketFunds, SendToMany", A+"operator_service.go")], [], ["broadcast transactions"])

p("C20", "Restoring a seed finds every used address and coin",
  """Restoring a wallet from its seed recovers, in every account, all addresses up to the last one used on chain, provided no gap reaches
  20 addresses, with all their unspent coins (those of the wallet account show in its balance), and the next derived address is past every used one. Each used market
  account gets its market back, closed, and with its pair when its coins are of exactly the base asset and one other. A restore that fails, because the
  explorer does, its client goes away or the daemon dies, reports its error, leaves no wallet behind and can be tried again, also with another
  passphrase; requests made at the same time initialise the wallet once.""",
  ["inputs", "fault_sequences"],
  "every pattern of used addresses over accounts and chains within the gap limit, and every point at which the explorer, the client or the daemon fails",
  "Tests restore one fixed wallet.",
  [A+"wallet_service.go"],
  [("InitWallet restore", A+"wallet_service.go")], [], ["application.WalletService", "vault and unspent repositories"])

p("C21", "A unit of work commits every store or none",
  """Running a function over several stores in one unit of work makes the changes of all of them take effect if
  the function succeeds, and of none if it fails or any store cannot start; every run begins new transactions and ends every one it began: all committed, or all rolled back. When a commit
  itself fails no further store is committed and every store is told to roll back.""",
  ["fault_sequences", "histories"],
  "every combination of stores that fail to begin, functions that fail, and commits that fail",
  "Tests cover three hand-picked cases.",
  ["internal/infrastructure/storage/db/uow/unit_of_work.go"],
  [("UnitOfWork.Run", "internal/infrastructure/storage/db/uow/unit_of_work.go")], [], ["uow.UnitOfWork"])

p("C22", "An accepted swap gives each side exactly what was agreed",
  """The transaction returned with an acceptance contains the trader's inputs and outputs unchanged, pays the wallet the full amount the trader offered,
  takes from the market account exactly the amount the trader asked and from the fee account exactly the network fee, every excess returning to a fresh address of the account it came from, and every wallet input is signed.
  Its signed inputs are exactly the coins reserved for the trade.""",
  ["inputs"],
  "every valid proposal over varied coin sets, amounts, directions and trader inputs",
  "Trade tests mock the transaction builder.",
  [A+"trade_service.go", "pkg/wallet/transaction.go", "pkg/wallet/sign.go"],
  [("fillProposal", A+"trade_service.go")], [], ["SwapAccept transaction"])

p("C23", "A proposal is accepted only at the market's current terms",
  """A proposal is accepted only while the wallet is unlocked, the requested market exists and is open, the proposal trades that market's two assets in
  the declared direction, and the amounts match a quote on the current available balance within the allowed slippage. Otherwise it is rejected with a failure message that
  names the proposal, no coin is reserved and no address is used up. Every reply carries the id of the message it answers.""",
  ["inputs", "histories"],
  "every proposal over assets, directions, amounts around the slippage bounds, market states and balances",
  "Tests propose at exactly the quoted amounts on one open market.",
  [A+"trade_service.go", D+"trade_service.go"],
  [("TradePropose, isValidTradePrice", A+"trade_service.go")], [], ["application.TradeService"])

p("C24", "What the interfaces show is what the daemon holds",
  """Every list, balance, report and setting shown over the operator, wallet and trade interfaces agrees with what the daemon holds at that moment and with the other views:
  the list of markets shows each market once with the account, fees, strategy, price and state it was last given; traders are offered exactly the open markets, and none while the
  wallet is locked; balances are the confirmed unspent coins of their account; every coin held is listed once, as spent, locked or free; as many distinct deposit addresses are listed as were
  given out; every trade is listed once, in the order requested, with its amounts, the fees and price it was agreed at, its status, failure and times, and with the blinded outputs of a settled one; the report of
  collected fees has exactly the completed trades of its market, and its totals are the sums of its entries; webhooks are listed until removed.
  No view is refused while the wallet is unlocked.""",
  ["inputs", "histories"],
  "every history of settings, coins, trades at every stage, webhooks and locks, over one to three markets with small and very large amounts",
  "Tests check that lists are not empty, with one market and one trade.",
  ["internal/interfaces/grpc/handler/operator.go", A+"operator_service.go", A+"trade_service.go", A+"wallet_service.go"],
  [("ListMarkets, ListTrades, ListUtxos, GetCollectedMarketFee", "internal/interfaces/grpc/handler/operator.go"), ("ListTrades, ListUtxos, ListMarkets, GetCollectedMarketFee", A+"operator_service.go")],
  [], ["Operator.ListTrades", "Operator.ListMarkets", "Wallet.WalletBalance", "Trade.Markets"])

p("C25", "A request over gRPC is carried out exactly as it was asked",
  """Every request to the wallet, operator and trade interfaces either is refused as malformed without any effect, or becomes exactly one call of the daemon's
  service with exactly its contents: the market, fees, prices, amounts, addresses, outpoints, passwords, words, flags and blinding keys that the client sent, each in its
  place. Its client, and no other, gets exactly that call's answer: every field and every element of every list in order, every update of an
  initialisation before its outcome, or an error if the call failed. Malformed are: a market without assets or with another base asset (where one is required), a missing
  fixed fee, prices or amounts that are not positive, unknown strategies, trade types and assets, proposals with a missing part, empty words, passwords or outputs, and
  a fee rate below the minimum.""",
  ["inputs", "schedules"],
  "every request of every method over well-formed and malformed contents and 64-bit extremes, every form of answer, alone and sent at the same time as others",
  "The gRPC interfaces have no tests.",
  ["internal/interfaces/grpc/handler/operator.go", "internal/interfaces/grpc/handler/trade.go", "internal/interfaces/grpc/handler/wallet.go"],
  [("NewOperatorHandler, NewTraderHandler, NewWalletHandler", "internal/interfaces/grpc/handler/"), ("service.Start", "internal/interfaces/grpc/service.go")],
  [], ["Wallet, Operator and Trade gRPC services"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
