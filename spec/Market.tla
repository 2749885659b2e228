------------------------------- MODULE Market -------------------------------
(* One market (domain.Market): funding, strategy, fees, prices, opening and   *)
(* quoting. Amounts and prices are BigNat; prices are scaled by 10^8.         *)
EXTENDS BigNat, FiniteSets

VARIABLES base, quote,      \* assets, "" until funded
          open,
          strat,            \* "balanced" | "pluggable"
          fee,              \* basis points
          fbase, fquote,    \* fixed fees (BigNat)
          bprice, qprice,   \* prices scaled by 10^8 (BigNat, <<>> = unset)
          last              \* previous automatic quote with nothing changed since: [key, given, got]
mvars == <<base, quote, open, strat, fee, fbase, fquote, bprice, qprice, last>>

None == [key |-> << >>, amt |-> << >>, res |-> << >>]
Init == /\ base = "" /\ quote = "" /\ open = FALSE /\ strat = "balanced" /\ fee = 25 /\ fbase = << >> /\ fquote = << >>
        /\ bprice = << >> /\ qprice = << >> /\ last = None
\* a new market takes its percentage fee at creation
Reset(f) == /\ base' = "" /\ quote' = "" /\ open' = FALSE /\ strat' = "balanced" /\ fee' = f /\ fbase' = << >> /\ fquote' = << >>
            /\ bprice' = << >> /\ qprice' = << >> /\ last' = None

Funded == base # "" /\ quote # ""
Range(s) == {s[i] : i \in 1..Len(s)}
FeeOK(f) == f >= 0 /\ f <= 9999
Z(x) == IsZero(x)
FixedOK(a) == ~a.negb /\ ~a.negq /\ (Z(a.b) = Z(a.q))

CanFund(a) == ~Funded /\ a.baseAsset \in Range(a.assets) /\ Cardinality(Range(a.assets)) = 2
Fund(a) == IF CanFund(a)
           THEN /\ base' = a.baseAsset /\ quote' = CHOOSE x \in Range(a.assets) : x # a.baseAsset
                /\ last' = None /\ UNCHANGED <<open, strat, fee, fbase, fquote, bprice, qprice>>
           ELSE UNCHANGED mvars

CanOpen == Funded /\ (strat = "pluggable" => ~Z(bprice) /\ ~Z(qprice))
Open == IF CanOpen THEN open' = TRUE /\ last' = None /\ UNCHANGED <<base, quote, strat, fee, fbase, fquote, bprice, qprice>>
        ELSE UNCHANGED mvars
Close == IF Funded THEN open' = FALSE /\ last' = None /\ UNCHANGED <<base, quote, strat, fee, fbase, fquote, bprice, qprice>>
         ELSE UNCHANGED mvars

\* switching to supplied prices clears the old ones (an unfunded market has none)
Strategy(a) ==
  IF open THEN UNCHANGED mvars
  ELSE /\ strat' = a.s /\ last' = None
       /\ IF a.s = "pluggable" /\ Funded THEN bprice' = << >> /\ qprice' = << >> ELSE UNCHANGED <<bprice, qprice>>
       /\ UNCHANGED <<base, quote, open, fee, fbase, fquote>>

CanFee(a) == Funded /\ ~open /\ FeeOK(a.f)
SetFee(a) == IF CanFee(a) THEN fee' = a.f /\ last' = None /\ UNCHANGED <<base, quote, open, strat, fbase, fquote, bprice, qprice>>
             ELSE UNCHANGED mvars
CanFixed(a) == Funded /\ ~open /\ FixedOK(a)
SetFixed(a) == IF CanFixed(a) THEN /\ fbase' = a.b /\ fquote' = a.q /\ last' = None
                                   /\ UNCHANGED <<base, quote, open, strat, fee, bprice, qprice>>
               ELSE UNCHANGED mvars
SetBasePrice(a) == IF Funded THEN bprice' = a.p /\ last' = None /\ UNCHANGED <<base, quote, open, strat, fee, fbase, fquote, qprice>>
                   ELSE UNCHANGED mvars
SetQuotePrice(a) == IF Funded THEN qprice' = a.p /\ last' = None /\ UNCHANGED <<base, quote, open, strat, fee, fbase, fquote, bprice>>
                    ELSE UNCHANGED mvars

-----------------------------------------------------------------------------
(* Quotes. a: [bb, qb: balances, amt, isBase, isBuy, key]; the trader buys base *)
(* (pays quote) or sells base (receives quote); amt is of base iff isBase.      *)
BalIn(a)  == IF a.isBuy THEN a.qb ELSE a.bb
BalOut(a) == IF a.isBuy THEN a.bb ELSE a.qb
GivesAmt(a) == a.isBase # a.isBuy         \* amt is what the trader gives
FixedFee(a) == IF a.isBase THEN fquote ELSE fbase     \* charged in the asset of the reply
OwnFixed(a) == IF a.isBase THEN fbase ELSE fquote
Price(a) == IF a.isBase THEN qprice ELSE bprice
E8x2 == <<0, 0, 2>>                       \* 2*10^8
LessFee(x) == Drop1(Mul(x, Nat2Big(10000 - fee)))
PlusFee(x) == Drop1(Mul(x, Nat2Big(10000 + fee)))

\* supplied prices: exactly amount * price, fee against the trader
PlugGross(a) == LET v == Drop2(Mul(a.amt, Price(a))) IN IF GivesAmt(a) THEN LessFee(v) ELSE PlusFee(v)
PlugServable(a) ==
  /\ ~Z(a.amt) /\ Leq(OwnFixed(a), a.amt)
  /\ GivesAmt(a) => Lt(FixedFee(a), PlugGross(a)) /\ Lt(Sub(PlugGross(a), FixedFee(a)), BalOut(a))
  /\ ~GivesAmt(a) => Lt(a.amt, BalOut(a)) /\ ~Z(PlugGross(a))
PlugAmount(a) == IF GivesAmt(a) THEN Sub(PlugGross(a), FixedFee(a)) ELSE Add(PlugGross(a), FixedFee(a))

\* automatic prices: the reserves' product does not fall, up to one unit and the ratio's eight decimals
AutoSound(a, res) ==
  IF GivesAmt(a)
  THEN LET x == LessFee(a.amt)                     \* what the formula may count as given
           y == Add(res, FixedFee(a))              \* what it may have computed to pay
           newIn == Add(BalIn(a), x)
       IN /\ Lt(res, BalOut(a)) /\ ~Z(res)
          /\ Leq(y, BalOut(a))
          /\ Leq(Mul(E8x2, Mul(BalIn(a), BalOut(a))),
                 Add(Mul(E8x2, Mul(newIn, Sub(BalOut(a), y))), Mul(newIn, BalOut(a))))
  ELSE /\ Lt(a.amt, BalOut(a)) /\ ~Z(res) /\ Leq(FixedFee(a), res)
       /\ LET rest == Sub(BalOut(a), a.amt)
              net == Add(Sub(res, FixedFee(a)), <<1>>)
          IN Leq(Mul(Nat2Big(10000 + fee), Mul(E8x2, Mul(BalIn(a), a.amt))),
                 Add(Mul(E8x2, Mul(rest, Mul(Nat2Big(10000), net))),
                     Mul(Nat2Big(10000 + fee), Mul(rest, Add(BalIn(a), E8x2)))))
\* requests that cannot be served by any reserve
AutoRefused(a) == \/ Z(a.amt) \/ Z(a.bb) \/ Z(a.qb) \/ Lt(a.amt, OwnFixed(a))
                  \/ (~GivesAmt(a) /\ Leq(BalOut(a), a.amt))
Key(a) == <<a.isBase, a.isBuy, a.bb, a.qb>>
Mono(a, res) == (last.key = Key(a)) =>
                  /\ (Leq(last.amt, a.amt) => Leq(last.res, res))
                  /\ (Leq(a.amt, last.amt) => Leq(res, last.res))
\* the price shown: |p * in - out * 10^8| <= in / 2
SpotOK(p, in, out) == /\ Leq(Mul(<<2>>, Mul(p, in)), Add(Mul(<<2>>, Mul(out, <<0, 0, 1>>)), in))
                      /\ Leq(Mul(<<2>>, Mul(out, <<0, 0, 1>>)), Add(Mul(<<2>>, Mul(p, in)), in))

QuoteOK(a, r) ==
  IF ~open THEN r.err # "ok"
  ELSE IF strat = "pluggable"
  THEN IF PlugServable(a)
       THEN /\ r.err = "ok" /\ Eq(r.amount, PlugAmount(a)) /\ Eq(r.bp, bprice) /\ Eq(r.qp, qprice)
            /\ r.asset = IF a.isBase THEN quote ELSE base
       ELSE r.err # "ok"
  ELSE /\ AutoRefused(a) => r.err # "ok"
       /\ r.err = "ok" => /\ AutoSound(a, r.amount) /\ Mono(a, r.amount)
                          /\ r.asset = IF a.isBase THEN quote ELSE base
                          /\ SpotOK(r.bp, a.qb, a.bb) /\ SpotOK(r.qp, a.bb, a.qb)
\* a quote changes nothing in the market; the model remembers it to compare the next one
Quote(a, r) == /\ UNCHANGED <<base, quote, open, strat, fee, fbase, fquote, bprice, qprice>>
               /\ last' = IF r.err = "ok" /\ strat = "balanced" THEN [key |-> Key(a), amt |-> a.amt, res |-> r.amount] ELSE last

-----------------------------------------------------------------------------
DoR(a, r) == \/ a.op = "fund" /\ Fund(a)
             \/ a.op = "open" /\ Open
             \/ a.op = "close" /\ Close
             \/ a.op = "strategy" /\ Strategy(a)
             \/ a.op = "fee" /\ SetFee(a)
             \/ a.op = "fixed" /\ SetFixed(a)
             \/ a.op = "bprice" /\ SetBasePrice(a)
             \/ a.op = "qprice" /\ SetQuotePrice(a)
             \/ a.op = "quote" /\ Quote(a, r)
Want(b, r) == r.err = (IF b THEN "ok" ELSE "err")
Ok(a, r) == \/ a.op = "fund" /\ Want(Funded \/ CanFund(a), r)
            \/ a.op = "open" /\ Want(CanOpen, r)
            \/ a.op = "close" /\ Want(Funded, r)
            \/ a.op = "strategy" /\ Want(~open, r)
            \/ a.op = "fee" /\ Want(CanFee(a), r)
            \/ a.op = "fixed" /\ Want(CanFixed(a), r)
            \/ a.op \in {"bprice", "qprice"} /\ Want(Funded, r)
            \/ a.op = "quote" /\ QuoteOK(a, r)
Trim(x) == IF Z(x) THEN << >> ELSE x
Obs == [base |-> base, quote |-> quote, open |-> open, strat |-> strat, fee |-> fee, fb |-> fbase, fq |-> fquote,
        bp |-> bprice, qp |-> qprice]

-----------------------------------------------------------------------------
OpenOnlyReady == open => Funded
FeesInBounds == FeeOK(fee) /\ (Z(fbase) = Z(fquote))
OpenOnlyPriced == [][open' /\ ~open /\ strat = "pluggable" => ~Z(bprice) /\ ~Z(qprice)]_mvars
TermsOnlyWhileClosed == [][(strat' # strat \/ fee' # fee \/ fbase' # fbase \/ fquote' # fquote) => ~open]_mvars
PairFixed == [][Funded => base' = base /\ quote' = quote]_mvars
=============================================================================
