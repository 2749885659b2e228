------------------------------- MODULE Relay -------------------------------
(* What a client asks over gRPC and what the daemon's services are asked:     *)
(* every request is either refused as malformed or becomes exactly one call   *)
(* with exactly its contents, and its client gets exactly that call's answer. *)
(* Numbers are written as strings, so that 64-bit ones fit.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE queue   \* requests that will be sent at the same time
rvars == <<queue>>
Init == queue = << >>
Reset == queue' = << >>

Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
BASE == "LBTC"
None == [absent |-> TRUE]
\* the market of a request, as the services take it
Mkt(r) == LET m == Get(r, "market", << >>) IN [BaseAsset |-> Get(m, "base_asset", ""), QuoteAsset |-> Get(m, "quote_asset", "")]
MktOk(r) == "market" \in DOMAIN r /\ Mkt(r).BaseAsset = BASE /\ Mkt(r).QuoteAsset # ""
Neg(s) == s \in {"-1", "-0.5", "-3", "-100", "-9223372036854775808"}
Pos(s) == s # "0" /\ ~Neg(s)
Small(s) == s \in {"0", "1", "99", "-100", "-9223372036854775808"}    \* fees under the minimum of 100 thousandths
Hex32 == {"5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225", "0ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"}
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
All(s, Op(_)) == \A i \in 1..Len(s) : Op(s[i])
Out(o) == [Asset |-> Get(o, "asset", ""), Value |-> Get(o, "value", "0"), Address |-> Get(o, "address", "")]
Point(o) == [Hash |-> Get(o, "hash", ""), Index |-> Get(o, "index", "0")]
Refuse == [ok |-> FALSE]
Call(n, args) == [ok |-> TRUE, m |-> n, args |-> args]
If(b, c) == IF b THEN c ELSE Refuse
NoArgs == << >>

SwapFields == {"id", "amount_p", "asset_p", "amount_r", "asset_r", "transaction", "input_blinding_key", "output_blinding_key"}
SwapOf(s) == [id |-> Get(s, "id", ""), amount_p |-> Get(s, "amount_p", "0"), asset_p |-> Get(s, "asset_p", ""),
              amount_r |-> Get(s, "amount_r", "0"), asset_r |-> Get(s, "asset_r", ""), transaction |-> Get(s, "transaction", ""),
              input_blinding_key |-> Get(s, "input_blinding_key", << >>), output_blinding_key |-> Get(s, "output_blinding_key", << >>)]
SwapOk(s) == /\ s.amount_p # "0" /\ s.amount_r # "0" /\ s.asset_p # "" /\ s.asset_r # "" /\ s.transaction # ""
             /\ s.input_blinding_key # << >> /\ s.output_blinding_key # << >>

\* the call a request must become
Expected(q) ==
  LET r == q.req
      m == q.m
      pair == [baseAsset |-> Mkt(r).BaseAsset, quoteAsset |-> Mkt(r).QuoteAsset]
  IN CASE m = "/Wallet/GenSeed" -> Call("GenSeed", NoArgs)
       [] m = "/Wallet/InitWallet" ->
            If(Get(r, "seed_mnemonic", << >>) # << >> /\ Get(r, "wallet_password", "") # "",
               Call("InitWallet", [mnemonic |-> Get(r, "seed_mnemonic", << >>), passphrase |-> Get(r, "wallet_password", ""), restore |-> Get(r, "restore", FALSE)]))
       [] m = "/Wallet/UnlockWallet" -> If(Get(r, "wallet_password", "") # "", Call("UnlockWallet", [passphrase |-> Get(r, "wallet_password", "")]))
       [] m = "/Wallet/ChangePassword" ->
            If(Get(r, "current_password", "") # "" /\ Get(r, "new_password", "") # "",
               Call("ChangePassword", [currentPassphrase |-> Get(r, "current_password", ""), newPassphrase |-> Get(r, "new_password", "")]))
       [] m = "/Wallet/WalletAddress" -> Call("GenerateAddressAndBlindingKey", NoArgs)
       [] m = "/Wallet/WalletBalance" -> Call("GetWalletBalance", NoArgs)
       [] m = "/Wallet/SendToMany" ->
            LET outs == Map(Get(r, "outputs", << >>), Out)
                Good(o) == o.Asset # "" /\ Pos(o.Value) /\ o.Address # ""
            IN If(outs # << >> /\ All(outs, Good) /\ ~Small(Get(r, "millisat_per_byte", "0")),
                  Call("SendToMany", [req |-> [Outputs |-> outs, MillisatPerByte |-> Get(r, "millisat_per_byte", "0"), Push |-> Get(r, "push", FALSE)]]))
       [] m = "/Operator/DepositMarket" -> Call("DepositMarket", pair @@ [numOfAddresses |-> Get(r, "num_of_addresses", "0")])
       [] m = "/Operator/DepositFeeAccount" -> Call("DepositFeeAccount", [numOfAddresses |-> Get(r, "num_of_addresses", "0")])
       [] m = "/Operator/BalanceFeeAccount" -> Call("FeeAccountBalance", NoArgs)
       [] m = "/Operator/ClaimMarketDeposit" -> Call("ClaimMarketDeposit", [market |-> Mkt(r), outpoints |-> Map(Get(r, "outpoints", << >>), Point)])
       [] m = "/Operator/ClaimFeeDeposit" -> Call("ClaimFeeDeposit", [outpoints |-> Map(Get(r, "outpoints", << >>), Point)])
       [] m = "/Operator/OpenMarket" -> If(MktOk(r), Call("OpenMarket", pair))
       [] m = "/Operator/CloseMarket" -> If(MktOk(r), Call("CloseMarket", pair))
       [] m = "/Operator/ListMarket" -> Call("ListMarket", NoArgs)
       [] m = "/Operator/ListDepositMarket" -> If(MktOk(r), Call("ListMarketExternalAddresses", [req |-> Mkt(r)]))
       [] m = "/Operator/ReportMarketFee" -> If(MktOk(r), Call("GetCollectedMarketFee", [market |-> Mkt(r)]))
       [] m = "/Operator/UpdateMarketPercentageFee" ->
            If(MktOk(r), Call("UpdateMarketPercentageFee",
               [req |-> [Market |-> Mkt(r), Fee |-> [BasisPoint |-> Get(r, "basis_point", "0"), FixedBaseFee |-> "0", FixedQuoteFee |-> "0"]]]))
       [] m = "/Operator/UpdateMarketFixedFee" ->
            If(MktOk(r) /\ "fixed" \in DOMAIN r, Call("UpdateMarketFixedFee",
               [req |-> [Market |-> Mkt(r), Fee |-> [BasisPoint |-> "0", FixedBaseFee |-> Get(r.fixed, "base_fee", "0"), FixedQuoteFee |-> Get(r.fixed, "quote_fee", "0")]]]))
       [] m = "/Operator/UpdateMarketPrice" ->
            LET p == Get(r, "price", << >>)
                b == Get(p, "base_price", "0")
                q2 == Get(p, "quote_price", "0")
            IN If(MktOk(r) /\ Pos(b) /\ Pos(q2), Call("UpdateMarketPrice", [req |-> [Market |-> Mkt(r), Price |-> [BasePrice |-> b, QuotePrice |-> q2]]]))
       [] m = "/Operator/UpdateMarketStrategy" ->
            If(MktOk(r) /\ Get(r, "strategy_type", "0") \in {"0", "1", "2"},
               Call("UpdateMarketStrategy", [req |-> [Market |-> Mkt(r), Strategy |-> Get(r, "strategy_type", "0")]]))
       [] m = "/Operator/WithdrawMarket" ->
            LET b == Get(r, "balance_to_withdraw", << >>)
            IN If(MktOk(r), Call("WithdrawMarketFunds",
                  [req |-> [Market |-> Mkt(r), BalanceToWithdraw |-> [BaseAmount |-> Get(b, "base_amount", "0"), QuoteAmount |-> Get(b, "quote_amount", "0")],
                            MillisatPerByte |-> Get(r, "millisat_per_byte", "0"), Address |-> Get(r, "address", ""), Push |-> Get(r, "push", FALSE)]]))
       [] m = "/Operator/ListTrades" -> Call("ListTrades", NoArgs)
       [] m = "/Operator/ListUtxos" -> Call("ListUtxos", NoArgs)
       [] m = "/Operator/ReloadUtxos" -> Call("ReloadUtxos", NoArgs)
       [] m = "/Operator/DropMarket" -> Call("DropMarket", [accountIndex |-> Get(r, "account_index", "0")])
       [] m = "/Operator/AddWebhook" ->
            Call("AddWebhook", [hook |-> [ActionType |-> Get(r, "action", "0"), Endpoint |-> Get(r, "endpoint", ""), Secret |-> Get(r, "secret", "")]])
       [] m = "/Operator/RemoveWebhook" -> Call("RemoveWebhook", [id |-> Get(r, "id", "")])
       [] m = "/Operator/ListWebhooks" -> Call("ListWebhooks", [actionType |-> Get(r, "action", "0")])
       [] m = "/Trade/Markets" -> Call("GetTradableMarkets", NoArgs)
       [] m = "/Trade/Balances" -> If(MktOk(r), Call("GetMarketBalance", [market |-> Mkt(r)]))
       [] m = "/Trade/MarketPrice" ->
            LET t == Get(r, "type", "0")
                a == Get(r, "amount", "0")
                s == Get(r, "asset", "")
            IN If(MktOk(r) /\ t \in {"0", "1"} /\ a # "0" /\ s \in Hex32,
                  Call("GetMarketPrice", [market |-> Mkt(r), tradeType |-> t, amount |-> a, asset |-> s]))
       [] m = "/Trade/TradePropose" ->
            LET t == Get(r, "type", "0")
                s == SwapOf(Get(r, "swap_request", << >>))
            IN If(MktOk(r) /\ t \in {"0", "1"} /\ SwapOk(s), Call("TradePropose", [market |-> Mkt(r), tradeType |-> t, swapRequest |-> s]))
       [] m = "/Trade/TradeComplete" ->
            LET Com(x) == [id |-> Get(x, "id", ""), accept_id |-> Get(x, "accept_id", ""), transaction |-> Get(x, "transaction", "")]
                Fai(x) == [id |-> Get(x, "id", ""), message_id |-> Get(x, "message_id", ""), failure_code |-> Get(x, "failure_code", "0"), failure_message |-> Get(x, "failure_message", "")]
            IN Call("TradeComplete", [swapComplete |-> IF "swap_complete" \in DOMAIN r THEN Com(r.swap_complete) ELSE None,
                                      swapFail |-> IF "swap_fail" \in DOMAIN r THEN Fai(r.swap_fail) ELSE None])

Market(x) == [base_asset |-> x.BaseAsset, quote_asset |-> x.QuoteAsset]
Fee(x) == [basis_point |-> x.BasisPoint, fixed |-> [base_fee |-> x.FixedBaseFee, quote_fee |-> x.FixedQuoteFee]]
Price(x) == [base_price |-> x.BasePrice, quote_price |-> x.QuotePrice]
Balance(x) == [base_amount |-> x.BaseAmount, quote_amount |-> x.QuoteAmount]
WithFee(x) == [market |-> Market(x.Market), fee |-> Fee(x.Fee)]
Coin(u) == [outpoint |-> [hash |-> u.Outpoint.Hash, index |-> u.Outpoint.Index], value |-> u.Value, asset |-> u.Asset]
Trade(t, u) ==
  u @@ [trade_id |-> t.ID, status |-> [status |-> t.Status.Code, failed |-> t.Status.Failed], market_with_fee |-> WithFee(t.MarketWithFee), price |-> Price(t.Price),
        swap_info |-> IF t.SwapInfo = [AmountP |-> "0", AssetP |-> "", AmountR |-> "0", AssetR |-> ""] THEN None
                      ELSE [amount_p |-> t.SwapInfo.AmountP, asset_p |-> t.SwapInfo.AssetP, amount_r |-> t.SwapInfo.AmountR, asset_r |-> t.SwapInfo.AssetR],
        fail_info |-> IF t.SwapFailInfo = [Code |-> "0", Message |-> ""] THEN None
                      ELSE [failure_code |-> t.SwapFailInfo.Code, failure_message |-> t.SwapFailInfo.Message],
        tx_url |-> t.TxURL, request_time_unix |-> t.RequestTimeUnix, accept_time_unix |-> t.AcceptTimeUnix, complete_time_unix |-> t.CompleteTimeUnix,
        settle_time_unix |-> t.SettleTimeUnix, expiry_time_unix |-> t.ExpiryTimeUnix]
Empty == << << >> >>     \* one message without fields
\* the messages in which call c's answer must reach the client
Reply(c) ==
  LET a == c.ans
      m == c.m
  IN CASE m = "GenSeed" -> <<[seed_mnemonic |-> a[1]]>>
       [] m = "InitWallet" -> LET One(u) == [account |-> u.AccountIndex, index |-> u.AddressIndex, status |-> u.Status, data |-> u.Data] IN Map(a[1], One)
       [] m = "GenerateAddressAndBlindingKey" -> <<[address |-> a[1], blinding |-> a[2]]>>
       [] m = "GetWalletBalance" ->
            LET One(p) == <<p[1], [total_balance |-> p[2].TotalBalance, confirmed_balance |-> p[2].ConfirmedBalance, unconfirmed_balance |-> p[2].UnconfirmedBalance]>>
            IN <<[balance |-> Map(a[1], One)]>>
       [] m \in {"SendToMany", "WithdrawMarketFunds"} -> <<[raw_tx |-> a[1]]>>
       [] m = "DepositMarket" -> LET One(x) == x.Address IN <<[addresses |-> Map(a[1], One)]>>
       [] m = "DepositFeeAccount" -> LET One(x) == [address |-> x.Address, blinding |-> x.BlindingKey] IN <<[address_with_blinding_key |-> Map(a[1], One)]>>
       [] m = "FeeAccountBalance" -> <<[balance |-> a[1]]>>
       [] m = "ListMarketExternalAddresses" -> <<[address |-> a[1]]>>
       [] m = "ListMarket" ->
            LET One(x) == [market |-> Market(x.Market), fee |-> Fee(x.Fee), tradable |-> x.Tradable, strategy_type |-> x.StrategyType,
                           account_index |-> x.AccountIndex, price |-> Price(x.Price)]
            IN <<[markets |-> Map(a[1], One)]>>
       [] m = "GetCollectedMarketFee" ->
            LET One(x) == [trade_id |-> x.TradeID, basis_point |-> x.BasisPoint, asset |-> x.Asset, amount |-> x.Amount, market_price |-> x.MarketPrice]
            IN <<[collected_fees |-> Map(a[1].CollectedFees, One), total_collected_fees_per_asset |-> a[1].TotalCollectedFeesPerAsset]>>
       [] m \in {"UpdateMarketPercentageFee", "UpdateMarketFixedFee"} -> <<[market_with_fee |-> WithFee(a[1])]>>
       [] m = "ListTrades" -> <<[trades |-> [i \in 1..Len(a[1]) |-> Trade(a[1][i], a[2][i])]]>>
       [] m = "ListUtxos" ->
            LET One(p) == <<p[1], [unspents |-> Map(p[2].Unspents, Coin), spents |-> Map(p[2].Spents, Coin), locks |-> Map(p[2].Locks, Coin)]>>
            IN <<[info_per_account |-> Map(a[1], One)]>>
       [] m = "AddWebhook" -> <<[id |-> a[1]]>>
       [] m = "ListWebhooks" -> LET One(x) == [id |-> x.Id, endpoint |-> x.Endpoint, is_secured |-> x.IsSecured] IN <<[webhook_info |-> Map(a[1], One)]>>
       [] m = "GetTradableMarkets" -> <<[markets |-> Map(a[1], WithFee)]>>
       [] m = "GetMarketBalance" -> <<[balances |-> <<[balance |-> Balance(a[1].Balance), fee |-> Fee(a[1].Fee)]>>]>>
       [] m = "GetMarketPrice" ->
            <<[prices |-> <<[price |-> Price(a[1].Price), fee |-> Fee(a[1].Fee), amount |-> a[1].Amount, asset |-> a[1].Asset, balance |-> Balance(a[1].Balance)]>>]>>
       [] m = "TradePropose" -> <<[swap_accept |-> a[1], swap_fail |-> a[2], expiry_time_unix |-> a[3]]>>
       [] m = "TradeComplete" -> <<[txid |-> a[1], swap_fail |-> a[2]]>>
       [] OTHER -> Empty

\* a reply carries the answer of a call; updates sent before a failure are not lost
Carries(rep, c) ==
  /\ rep.err = IF c.err = "" THEN "ok" ELSE "err"
  /\ rep.msgs = IF c.err = "" \/ c.m = "InitWallet" THEN Reply(c) ELSE << >>
Refused(rep) == rep.err = "err" /\ rep.msgs = << >>

Do(a) == IF a.op = "queue" THEN queue' = Append(queue, [m |-> a.m, req |-> a.req]) ELSE queue' = << >>
Ok(a, r) ==
  a.op = "send" =>
    LET E == [i \in 1..Len(queue) |-> Expected(queue[i])]
        S == {i \in 1..Len(queue) : E[i].ok}
        N == 1..Len(r.calls)
    IN /\ Len(r.replies) = Len(queue)
       /\ \A i \in (1..Len(queue)) \ S : Refused(r.replies[i])
       /\ Cardinality(S) = Len(r.calls)
       /\ \E f \in [S -> N] :
            /\ \A i, j \in S : f[i] = f[j] => i = j
            /\ \A i \in S : r.calls[f[i]].m = E[i].m /\ r.calls[f[i]].args = E[i].args /\ Carries(r.replies[i], r.calls[f[i]])
=============================================================================
