------------------------------- MODULE Perms -------------------------------
(* Who may call what: the gRPC interfaces, the macaroons and their store.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

W(e) == <<e, "write">>
R(e) == <<e, "read">>
\* calls that need no macaroon: creating, unlocking or re-keying the wallet, and trading
Public == {"/Wallet/GenSeed", "/Wallet/InitWallet", "/Wallet/UnlockWallet", "/Wallet/ChangePassword",
           "/Trade/Markets", "/Trade/Balances", "/Trade/MarketPrice", "/Trade/TradePropose", "/Trade/TradeComplete"}
\* what every other call requires
Needs == [m \in {
   "/Wallet/WalletAddress", "/Wallet/SendToMany", "/Wallet/WalletBalance", "/Operator/DepositMarket", "/Operator/DepositFeeAccount",
   "/Operator/ClaimMarketDeposit", "/Operator/ClaimFeeDeposit", "/Operator/OpenMarket", "/Operator/CloseMarket",
   "/Operator/UpdateMarketPercentageFee", "/Operator/UpdateMarketFixedFee", "/Operator/UpdateMarketStrategy", "/Operator/ListMarket",
   "/Operator/ListDepositMarket", "/Operator/BalanceFeeAccount", "/Operator/DropMarket", "/Operator/UpdateMarketPrice",
   "/Operator/WithdrawMarket", "/Operator/ReloadUtxos", "/Operator/ListTrades", "/Operator/ListUtxos", "/Operator/AddWebhook",
   "/Operator/RemoveWebhook", "/Operator/ListWebhooks"} |->
  CASE m \in {"/Wallet/WalletAddress", "/Wallet/SendToMany"} -> W("wallet")
    [] m = "/Wallet/WalletBalance" -> R("wallet")
    [] m \in {"/Operator/ListMarket", "/Operator/ListDepositMarket", "/Operator/BalanceFeeAccount"} -> R("market")
    [] m = "/Operator/UpdateMarketPrice" -> W("price")
    [] m \in {"/Operator/WithdrawMarket", "/Operator/ReloadUtxos"} -> W("operator")
    [] m \in {"/Operator/ListTrades", "/Operator/ListUtxos"} -> R("operator")
    [] m \in {"/Operator/AddWebhook", "/Operator/RemoveWebhook"} -> W("webhook")
    [] m = "/Operator/ListWebhooks" -> R("webhook")
    [] OTHER -> W("market")]
\* what the macaroons the daemon writes to disk grant
Role == [admin |-> {R("operator"), W("operator"), R("market"), W("market"), W("price"), R("webhook"), W("webhook"), R("wallet"), W("wallet")},
         readonly |-> {R("operator"), R("market"), R("wallet"), R("webhook")},
         market |-> {R("market"), W("market"), W("price")},
         price |-> {W("price")},
         wallet |-> {R("wallet"), W("wallet")},
         webhook |-> {R("webhook"), W("webhook")}]
Reading == {"/Wallet/WalletBalance", "/Operator/ListMarket", "/Operator/ListDepositMarket", "/Operator/BalanceFeeAccount",
            "/Operator/ListTrades", "/Operator/ListUtxos", "/Operator/ListWebhooks"}

VARIABLES up,       \* the interfaces are served
          auth,     \* with macaroons
          pw, open, \* the macaroon key store: password ("" before the first), open
          files     \* the macaroon files exist
pvars == <<up, auth, pw, open, files>>
Init == up = FALSE /\ auth = TRUE /\ pw = "" /\ open = FALSE /\ files = FALSE
Reset == up' = FALSE /\ auth' = TRUE /\ pw' = "" /\ open' = FALSE /\ files' = FALSE

Opens(a) == auth /\ up /\ (pw = "" \/ pw = a.p)
Do(a) ==
  CASE a.op = "start" -> IF up \/ a.broken THEN UNCHANGED pvars ELSE up' = TRUE /\ auth' = a.auth /\ open' = FALSE /\ UNCHANGED <<pw, files>>
    [] a.op = "stop" -> up' = FALSE /\ open' = FALSE /\ UNCHANGED <<auth, pw, files>>
    [] a.op \in {"init", "unlock"} ->   \* the wallet was created or unlocked with a password
         IF Opens(a) THEN pw' = a.p /\ open' = TRUE /\ files' = TRUE /\ UNCHANGED <<up, auth>> ELSE UNCHANGED pvars
    [] a.op = "open" -> IF Opens(a) THEN pw' = a.p /\ open' = TRUE /\ UNCHANGED <<up, auth, files>> ELSE UNCHANGED pvars
    [] a.op = "change" ->
         IF auth /\ up /\ open /\ pw = a.p THEN pw' = a.np /\ UNCHANGED <<up, auth, open, files>> ELSE UNCHANGED pvars
    [] OTHER -> UNCHANGED pvars

Range(s) == {s[i] : i \in 1..Len(s)}
Ops(mac) == IF mac.role # "" THEN Role[mac.role] ELSE {<<x[1], x[2]>> : x \in Range(mac.ops)}
Genuine(mac) == mac.n = 1 /\ ~mac.forged /\ mac.caveat \in {"", "time", "ip"}
Granted(m, mac) ==
  \/ <<"uri", m>> \in Ops(mac)
  \/ IF m \in DOMAIN Needs THEN Needs[m] \in Ops(mac)
     ELSE FALSE
Allowed(a) == a.m \in Public \/ ~auth \/ (open /\ Genuine(a.mac) /\ Granted(a.m, a.mac))
\* a call nobody declared a permission for is refused; if one is declared for it, it must be one of the known ones
Undeclared(a) == a.m \notin Public /\ a.m \notin DOMAIN Needs
Ok(a, r) ==
  CASE a.op = "start" -> r.err = IF a.broken THEN "err" ELSE "ok"
    [] a.op = "call" -> IF Undeclared(a) THEN r.reached => ~auth \/ (open /\ Genuine(a.mac) /\ Ops(a.mac) # {})
                        ELSE r.reached = (up /\ Allowed(a))
    [] OTHER -> TRUE
ObsOk(o) == o.files = files
-----------------------------------------------------------------------------
\* the statement of the property, over the tables
Methods == DOMAIN Needs
ReadOnlyNeverWrites == \A m \in Methods : Needs[m] \in Role.readonly => m \in Reading
Areas == \A m \in Methods :
   /\ Needs[m] \in Role.wallet => m \in {"/Wallet/WalletAddress", "/Wallet/SendToMany", "/Wallet/WalletBalance"}
   /\ Needs[m] \in Role.price => m = "/Operator/UpdateMarketPrice"
   /\ Needs[m] \in Role.webhook => m \in {"/Operator/AddWebhook", "/Operator/RemoveWebhook", "/Operator/ListWebhooks"}
   /\ Needs[m] \in Role.market => m \notin {"/Wallet/SendToMany", "/Operator/WithdrawMarket", "/Wallet/WalletAddress"}
AdminAll == \A m \in Methods : Needs[m] \in Role.admin
Disjoint == Public \cap Methods = {}
ClosedRefuses == ~open /\ auth => \A m \in Methods : ~Allowed([m |-> m, mac |-> [n |-> 1, role |-> "admin", ops |-> << >>, forged |-> FALSE, caveat |-> ""]])
=============================================================================
