------------------------------ MODULE Relay_mc ------------------------------
EXTENDS Relay, Json
VARIABLE hist
CONSTANTS SimDepth, MaxQ
Good == {[base_asset |-> BASE, quote_asset |-> "USDT"], [base_asset |-> BASE, quote_asset |-> "EURX"]}
Bad == {[base_asset |-> "XXX", quote_asset |-> "USDT"], [base_asset |-> BASE], [quote_asset |-> "USDT"], [base_asset |-> "USDT", quote_asset |-> BASE],
        [base_asset |-> "LBTCX", quote_asset |-> "USDT"]}
With(ms, rs) == {[market |-> m] @@ r : m \in ms, r \in rs}
Nil == << >>
Mks(rs) == With(Good \cup Bad, rs) \cup rs
Q(m, rs) == {[op |-> "queue", m |-> m, req |-> r] : r \in rs}
Big == "9223372036854775807"
UBig == "18446744073709551615"
Seeds == {<<"abandon", "ability">>, <<"zoo">>, <<"able", "about", "zoo", "able">>}
Drop(r, f) == [k \in DOMAIN r \ {f} |-> r[k]]
Set(r, f, v) == [r EXCEPT ![f] = v]
Points == {<<>>, <<[hash |-> "aa", index |-> "1"]>>, <<[hash |-> "aa", index |-> "0"], [hash |-> "bb", index |-> "2147483647"]>>, <<[hash |-> "cc"], [hash |-> "aa", index |-> "-1"], [hash |-> "cc"]>>}
OutA == [asset |-> "A", value |-> "7", address |-> "ad1"]
OutB == [asset |-> "B", value |-> Big, address |-> "ad2"]
OutsOk == {<<OutA>>, <<Set(OutA, "value", "1")>>, <<OutB>>, <<OutA, OutB>>, <<OutB, OutA, OutA>>}
OutsBad == {<<Drop(OutA, f)>> : f \in DOMAIN OutA} \cup {<<OutA, Set(OutB, "value", v)>> : v \in {"0", "-1", "-9223372036854775808"}} \cup
           {<<Drop(OutB, "address"), OutA>>, <<OutA, Drop(OutB, "asset")>>}
Swap1 == [id |-> "i1", amount_p |-> "5", asset_p |-> "P", amount_r |-> UBig, asset_r |-> "R", transaction |-> "tx",
          input_blinding_key |-> <<<<"i", "k1">>, <<"j", "k2">>>>, output_blinding_key |-> <<<<"o", "k3">>>>]
Swap2 == [id |-> "i2", amount_p |-> "9223372036854775808", asset_p |-> "R", amount_r |-> "6", asset_r |-> "P", transaction |-> "ty",
          input_blinding_key |-> <<<<"o", "k9">>>>, output_blinding_key |-> <<<<"i", "k7">>, <<"j", "k8">>>>]
Swaps == {Swap1, Swap2} \cup {Drop(Swap1, f) : f \in SwapFields} \cup
  {Set(Swap2, f, "") : f \in {"asset_p", "asset_r", "transaction"}} \cup {Set(Swap2, f, "0") : f \in {"amount_p", "amount_r"}} \cup
  {Set(Swap2, f, <<>>) : f \in {"input_blinding_key", "output_blinding_key"}}
Com == [id |-> "c", accept_id |-> "a", transaction |-> "t"]
Fai == [id |-> "f", message_id |-> "m", failure_code |-> "4294967295", failure_message |-> "why"]
Msats == {"100", "5000", Big}
Pushed(r) == r @@ [push |-> TRUE]

Requests == UNION {
  Q("/Wallet/GenSeed", {Nil}), Q("/Wallet/WalletAddress", {Nil}), Q("/Wallet/WalletBalance", {Nil}),
  Q("/Wallet/InitWallet", {[seed_mnemonic |-> s, wallet_password |-> p, restore |-> x] : s \in Seeds, p \in {"pw1", "other"}, x \in BOOLEAN} \cup
     {[wallet_password |-> "pw1"], [seed_mnemonic |-> <<"a">>], [seed_mnemonic |-> <<>>, wallet_password |-> "pw1", restore |-> TRUE], [seed_mnemonic |-> <<"a">>, wallet_password |-> ""]}),
  Q("/Wallet/UnlockWallet", {Nil} \cup {[wallet_password |-> p] : p \in {"", "pw1", "other"}}),
  Q("/Wallet/ChangePassword", {Nil, [current_password |-> "pw1"], [new_password |-> "pw1"]} \cup {[current_password |-> p, new_password |-> n] : p, n \in {"", "pw1", "other"}}),
  Q("/Wallet/SendToMany", {Pushed([outputs |-> o, millisat_per_byte |-> f]) : o \in OutsOk, f \in Msats} \cup
     {Pushed([outputs |-> o, millisat_per_byte |-> "100"]) : o \in OutsBad \cup {<<>>}} \cup
     {Pushed([outputs |-> o, millisat_per_byte |-> f]) : o \in {<<OutA>>, <<OutA, OutB>>}, f \in {"0", "1", "99", "-100", "-9223372036854775808"}} \cup
     {Pushed([outputs |-> <<OutA>>]), Pushed([millisat_per_byte |-> "100"])}),
  Q("/Operator/DepositMarket", With(Good, {Nil, [num_of_addresses |-> "1"], [num_of_addresses |-> "7"]}) \cup {Nil, [num_of_addresses |-> "3"]}),
  Q("/Operator/DepositFeeAccount", {Nil, [num_of_addresses |-> "1"], [num_of_addresses |-> "7"]}),
  Q("/Operator/BalanceFeeAccount", {Nil}), Q("/Operator/ListMarket", {Nil}), Q("/Operator/ListTrades", {Nil}), Q("/Operator/ListUtxos", {Nil}), Q("/Operator/ReloadUtxos", {Nil}),
  Q("/Operator/ClaimMarketDeposit", With(Good, {[outpoints |-> p] : p \in Points})),
  Q("/Operator/ClaimFeeDeposit", {Nil} \cup {[outpoints |-> p] : p \in Points}),
  Q("/Operator/OpenMarket", Mks({Nil})), Q("/Operator/CloseMarket", Mks({Nil})),
  Q("/Operator/ListDepositMarket", Mks({Nil})), Q("/Operator/ReportMarketFee", Mks({Nil})), Q("/Trade/Balances", Mks({Nil})),
  Q("/Operator/UpdateMarketPercentageFee", Mks({Nil} \cup {[basis_point |-> x] : x \in {"1", "25", "9999", "10000", Big, "-3"}})),
  Q("/Operator/UpdateMarketFixedFee", Mks({Nil, [fixed |-> [base_fee |-> "5"]], [fixed |-> [quote_fee |-> "6"]], [fixed |-> [base_fee |-> "0", quote_fee |-> "0"]]} \cup
     {[fixed |-> [base_fee |-> x, quote_fee |-> y]] : x \in {"650", Big}, y \in {"0", "701", "-1"}})),
  Q("/Operator/UpdateMarketPrice", Mks({Nil, [price |-> [base_price |-> "0.25"]], [price |-> [quote_price |-> "4"]]} \cup
     {[price |-> [base_price |-> x, quote_price |-> y]] : x \in {"0.25", "0.00002", "0", "-0.5"}, y \in {"4", "65000.37", "0", "-3"}})),
  Q("/Operator/UpdateMarketStrategy", Mks({Nil} \cup {[strategy_type |-> x] : x \in {"0", "1", "2", "3", "-1", "255"}})),
  Q("/Operator/WithdrawMarket", Mks({Pushed([balance_to_withdraw |-> [base_amount |-> x, quote_amount |-> y], millisat_per_byte |-> f, address |-> d]) :
     x \in {"0", "1", "11"}, y \in {"1", "22", UBig}, f \in {"100", "5000"}, d \in {"ad1", "ad2"}} \cup
     {Pushed([balance_to_withdraw |-> [base_amount |-> "9"], millisat_per_byte |-> "200", address |-> "ad1"])})),
  Q("/Operator/DropMarket", {[account_index |-> x] : x \in {"0", "5", "6", "2147483648"}}),
  Q("/Operator/AddWebhook", {[endpoint |-> e, action |-> x, secret |-> s] : e \in {"http://a", "http://b"}, x \in {"0", "1", "2", "3"}, s \in {"", "sec"}}),
  Q("/Operator/RemoveWebhook", {[id |-> x] : x \in {"h1", "h2"}}),
  Q("/Operator/ListWebhooks", {[action |-> x] : x \in {"0", "1", "2", "3"}}),
  Q("/Trade/Markets", {Nil}),
  Q("/Trade/MarketPrice", Mks({[type |-> t, amount |-> x, asset |-> s] : t \in {"0", "1", "2", "-1"}, x \in {"0", "1", "5", UBig},
     s \in Hex32 \cup {"zz", "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b2", "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225aa", ""}})),
  Q("/Trade/TradePropose", With(Good, {[type |-> t, swap_request |-> s] : t \in {"0", "1"}, s \in Swaps}) \cup
     Mks({Nil, [type |-> "1", swap_request |-> Swap1], [type |-> "0", swap_request |-> Set(Set(Swap2, "amount_r", "1"), "amount_p", "1")], [type |-> "2", swap_request |-> Swap2], [type |-> "-1", swap_request |-> Swap2]})),
  Q("/Trade/TradeComplete", {Nil, [swap_complete |-> Com], [swap_fail |-> Fai], [swap_complete |-> Com, swap_fail |-> Fai], [swap_complete |-> [id |-> "c2", accept_id |-> "a2"]], [swap_fail |-> [id |-> "f2"]]})
  }
Modes == {"full", "empty", "err", "late"}
MCInit == Init /\ hist = << >>
\* simulation draws one of the requests, and sends them one to MaxQ at a time
MCNext ==
  \/ /\ Len(queue) < MaxQ
     /\ \E a \in IF SimDepth > 0 THEN {RandomElement(Requests)} ELSE Requests : Do(a) /\ hist' = Append(hist, a)
  \/ /\ queue # << >>
     /\ \E x \in Modes : LET a == [op |-> "send", mode |-> x] IN Do(a) /\ hist' = Append(hist, a)
Spec == MCInit /\ [][MCNext]_<<rvars, hist>>
View == queue
Emit == hist'[Len(hist')].op = "send" => PrintT("SCRIPT " \o ToJson(hist'))
EmitSim == Len(hist) = SimDepth => PrintT("SCRIPT " \o ToJson(hist))
\* what the statement of the property says about the table of calls
Bounded == Len(queue) <= MaxQ
PaymentsPositive == \A i \in 1..Len(queue) : LET e == Expected(queue[i]) IN
   e.ok /\ e.m = "SendToMany" => e.args.req.Outputs # << >> /\ \A o \in {e.args.req.Outputs[j] : j \in 1..Len(e.args.req.Outputs)} : Pos(o.Value)
OwnBase == \A i \in 1..Len(queue) : LET e == Expected(queue[i]) IN
   e.ok /\ e.m \in {"OpenMarket", "CloseMarket"} => e.args.baseAsset = BASE /\ e.args.quoteAsset # ""
NoBlankSecrets == \A i \in 1..Len(queue) : LET e == Expected(queue[i]) IN
   (e.ok /\ e.m \in {"UnlockWallet", "InitWallet"} => e.args.passphrase # "") /\ (e.ok /\ e.m = "ChangePassword" => e.args.newPassphrase # "")
=============================================================================
