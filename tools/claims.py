# property -> (specification modules, what the level covers)
CLAIMS = {
 "C01": ("Trade", "Every transition of the trade state machine from every reachable model state, with a fake clock stepping across deadlines."),
 "C04": ("Market, BigNat", "Every transition of the market state machine from every reachable model state, plus seeded quotes."),
 "C16": ("Market, BigNat", "The rules are exact integer arithmetic; quotes are seeded ladders of amounts over markets of all magnitudes up to the money supply."),
 "C17": ("CoinSelect, BigNat", "Sequential histories from the model, and real goroutines selecting at the same time from the same coins (schedules are the runtime's, not enumerated)."),
 "C06": ("Vault", "Both vault back ends, badger also on disk across restarts; every transition of the vault model plus derivations that overlap inside the update; each address is checked against its path, script and blinding key."),
 "C07": ("Vault", "As C06, plus one passphrase history on the real cipher (bulk histories use a fast stand-in for it) and a scan of the stored bytes for the seed."),
 "C03": ("Unspents", "Both repository back ends (in-memory store, badger in memory and on disk with restarts), every call and query."),
 "C09": ("MacKeys", "The service and the bare root key store; every macaroon ever baked is validated after every call; a disk image is kept at every sync to disk as a crash point and reopened; concurrent calls use the runtime's schedules. The key derivation is made cheap and the crash hook added in a copy of the third-party modules."),
 "C10": ("SecureStore", "Every transition of the store model with keys, buckets and values of awkward bytes; a disk image is kept at every sync to disk as a crash point and reopened; concurrent calls use the runtime's schedules. The key derivation is made cheap and the crash hook added in a copy of the third-party modules."),
 "C08": ("Perms", "Every method of the three served gRPC interfaces called over loopback, with and without TLS, with every baked macaroon and variants of it, in every state of the key store's life cycle; arbitrary grants through the same interceptors."),
 "C11": ("Webhooks", "Real endpoints on loopback that answer well, badly or cut the line; every transition of the registry model, crash images at every sync with the interrupted call repeated, and bursts of concurrent calls on the runtime's schedules."),
 "C12": ("Crawler", "The real watcher on a fake clock (testing/synctest), so rounds, slow answers and breaker pauses are exact; every transition of the model, bursts without pause between calls, and concurrent calls on the runtime's schedules."),
 "C13": ("Repos", "Both back ends; every transition of the store model, calls made inside another call's update function or transaction, concurrent calls, and a copy of the disk taken after every commit as a crash point and reopened. The in-memory back end has no transactions to roll back; prices live in their own store and are not part of a main transaction. The crash hook and smaller tables are added in a copy of badger."),
 "C21": ("Uow", "Every combination of up to three stores, with their own or a shared transaction, whose begin, commit or rollback fails, a function that succeeds, fails or panics, and a second run of the same unit after each outcome; every call of the code under test is one step of the model."),
 "C02": ("Swap", "The real trade service, listener and stores over a simulated chain with real Liquid transactions; every transition of the swap model on a fake clock (in-memory store), and proposals, completions and cancellations sent at the same time in real time over both back ends (schedules are the runtime's). The coin choices of the model are exhausted in a separate design check."),
 "C14": ("Swap", "As C02, weighted on completions (valid, unsigned, tampered, stripped, foreign, malformed, failing broadcast, late, repeated) and cancellations in every model state; a locked wallet is left out for completions."),
 "C15": ("Swap", "As C02, weighted on confirmations, repeats, unknown transactions, restarts, deposits and starts of the observation in every model state, and on each of the store accesses of a confirmation failing; restarts keep the in-memory stores."),
 "C22": ("Swap", "As C02, weighted on proposals: every accepted transaction is decoded, unblinded with the wallet's keys, balanced against the coins it spends (values and commitments) and its signatures are verified. Range and surjection proofs are not verified."),
 "C23": ("Swap", "As C02, weighted on proposals that are wrong in one respect (assets, direction, price, market, malformed parts) in every model state."),
 "C05": ("Operator", "The real operator service, both stores, the simulated chain; every transition of the operator model two steps deep from three worlds, simulated histories, and requests sent at the same time (schedules are the runtime's). Market lookups by asset and by account, the lists and the stored records are read after every step."),
 "C18": ("Operator", "As C05, weighted on claims (owned, foreign, unconfirmed, unknown, repeated, out of range, of other markets, failing explorer), payments into the wallet, reloads and balances in every model state."),
 "C19": ("Operator", "As C05, weighted on withdrawals and payments: every transaction is decoded, unblinded, balanced against the coins it spends (values and commitments) and its signatures and fee rate verified. Range and surjection proofs are not verified."),
 "C24": ("Views", "All histories of two steps over two and three markets are enumerated, longer ones (60 steps) are random; everything there is to see is looked at after each step, through the real handlers. The chain and the wallet's coins on it are stand-ins."),
 "C25": ("Relay", "Every method of the three interfaces over loopback gRPC, 1308 requests each with four forms of answer exhaustively, and random bursts of up to four at once; the services are stand-ins that record what they are asked. One finding is listed: the push flag."),
 "C20": ("Restore", "Patterns of used addresses are directed or random, with gaps around 20; crashes at each store access run on badger, the rest also on virtual time. Real scrypt is replaced by a fast stand-in. One finding is listed: market accounts after a never-used one."),
}
NA = {}
