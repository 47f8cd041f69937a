package main

import (
	"fmt"
	"sort"
	"strings"
)

const (
	dexPkg = "vm/contracts/dex"
	ctPkg  = "vm/contracts"
)

// macros expands function-like macros (name, parameter count, text with $1..)
// in a specification; arguments may nest.
func macros(text string, defs map[string]string) string {
	for again := true; again; {
		again = false
		for name, body := range defs {
			at := -1
			for i := 0; ; {
				k := strings.Index(text[i:], name+"(")
				if k < 0 {
					break
				}
				k += i
				if k == 0 || !isWord(text[k-1]) {
					at = k
					break
				}
				i = k + 1
			}
			if at < 0 {
				continue
			}
			again = true
			depth, start := 0, at+len(name)+1
			var args []string
			j := start
			for ; j < len(text); j++ {
				ch := text[j]
				if ch == '(' || ch == '[' {
					depth++
				}
				if ch == ')' && depth == 0 || ch == ',' && depth == 0 {
					args = append(args, strings.TrimSpace(text[start:j]))
					start = j + 1
					if ch == ')' {
						break
					}
				}
				if ch == ')' || ch == ']' {
					depth--
				}
			}
			out := body
			for n, a := range args {
				out = strings.ReplaceAll(out, "%"+string(rune('1'+n)), a)
			}
			text = text[:at] + out + text[j+1:]
		}
	}
	return text
}

func isWord(b byte) bool {
	return b == '_' || b == '.' || b == '$' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

var dexMacros = map[string]string{
	"val": "SetBytes(%1)",
	"sum": "Bytes(SetBytes(%1) + SetBytes(%2))",
	"flt": "SetString(SetPrec(_, 120), %1).R0",
	"dif": "Bytes(SetBytes(%1) - SetBytes(%2))",
}

const dexSpec = `
fn AddBigInt
 ret 0 Bytes(SetBytes(A0) + SetBytes(A1))

fn SubBigIntAbs
 ret 0 Bytes(SetBytes(A0) - SetBytes(A1))

fn SubBigInt
 ret 0 SetBytes(A0) - SetBytes(A1)

fn NegativeAmount
 ret 0 0 - SetBytes(A0)

fn SafeSubBigInt
 case CmpForBigInt(A1, A0) > 0
 ret 0 nil
 ret 1 A0
 ret 2 true
 case CmpForBigInt(A1, A0) <= 0
 ret 0 dif(A0, A1)
 ret 1 A1
 ret 2 false

fn MinBigInt
 case val(A0) > val(A1)
 ret 0 A1
 case val(A0) <= val(A1)
 ret 0 A0

fn CmpForBigInt
 case len(A0) == 0 && len(A1) == 0
 ret 0 0
 case len(A0) == 0 && len(A1) != 0
 ret 0 -1
 case len(A0) != 0 && len(A1) == 0
 ret 0 1
 case len(A0) != 0 && len(A1) != 0
 ret 0 cmp3(val(A0), val(A1))

fn CmpToBigZero
 ret 0 cmp3(val(A0), 0)

fn GetAbs
 case A0 < 0
 ret 0 0 - A0
 ret 1 -1
 case A0 >= 0
 ret 0 A0
 ret 1 1

fn NewRawMatcher
 ret 0.db A0
 ret 0.MarketInfo ZERO

fn NewMatcherWithMarketInfo
 ret 0.db A0
 ret 0.MarketInfo A1

fn NewMatcher
 def G GetMarketInfoById(A0, A1)
 err 1
 ok $G.R1
 ret 0.db A0
 ret 0.MarketInfo $G.R0

fn Matcher.MatchOrder
 def B getOrderBookForTaker(A0, A1.Order.Side)
 def D doMatchTaker(A0, A1, $B.R0, A2)
 err 0
 effects
 watch doMatchTaker release
 ok $B.R1 == nil
 ok $D == nil
 call $D
 call release($B.R0)

fn Matcher.GetFundSettles
 ret 0 A0.fundSettles

fn Matcher.GetFees
 ret 0 A0.feeSettles

fn Matcher.GetOrderById
 def V getValueFromDb(A0.db, A1)
 def D DeSerializeCompact(_, $V, A1)
 err 1
 ok len($V) > 0
 ok $D == nil
 only $D
 ret 0 NEW

fn Matcher.CancelOrderById
 effects
 ordered
 watch handleRefund emitOrderUpdate deleteOrder
 case A1.Order.Status == 0
 at handleRefund A1.Order.Status = 3
 at handleRefund A1.Order.CancelReason = 0
 call handleRefund(A0, A1)
 call emitOrderUpdate(A0, _)
 call deleteOrder(A0, A1)
 case A1.Order.Status == 1
 at handleRefund A1.Order.Status = 3
 at handleRefund A1.Order.CancelReason = 3
 call handleRefund(A0, A1)
 call emitOrderUpdate(A0, _)
 call deleteOrder(A0, A1)
 case A1.Order.Status != 0 && A1.Order.Status != 1
 at handleRefund A1.Order.Status = 3
 call handleRefund(A0, A1)
 call emitOrderUpdate(A0, _)
 call deleteOrder(A0, A1)

fn Matcher.doMatchTaker
 def N nextOrder(A2)
 def R recursiveTakeOrder(A0, A1, $N.R0, A2, _, _, GenerateHeightPoint(A0.db))
 def C after(handleTakerRes(A0, A1), A1.Order.CancelReason)
 err 0
 effects
 ordered
 watch handleTakerRes handleModifiedMakers handleTxs TryUpdateTimestamp recursiveTakeOrder
 ok !$N.R1 || $R == nil
 case !$N.R1
 call handleTakerRes(A0, A1)
 call TryUpdateTimestamp(A0.db, A1.Order.Timestamp, A3)
 case $N.R1 && $C != 8 && $C != 9
 call $R
 call handleTakerRes(A0, A1)
 call handleModifiedMakers(A0, _)
 call handleTxs(A0, _)
 call TryUpdateTimestamp(A0.db, A1.Order.Timestamp, A3)
 case $N.R1 && $C == 8 || $C == 9
 call $R
 call handleTakerRes(A0, A1)
 call TryUpdateTimestamp(A0.db, A1.Order.Timestamp, A3)

fn Matcher.recursiveTakeOrder
 def T filterTimeout(A0.db, A2)
 def M matchPrice(A1, A2).R0
 def TX calculateOrderAndTx(A1, A2, A0.MarketInfo, A6)
 def S after($TX, A1.Order.Status)
 def N nextOrder(A3)
 def R recursiveTakeOrder(A0, A1, $N.R0, A3, A4, A5, A6)
 err 0
 effects
 watch filterTimeout matchPrice calculateOrderAndTx recursiveTakeOrder nextOrder
 mayfail $R != nil
 case !$T && !$M
 call $T
 call matchPrice(A1, A2)
 case !$T && $M && A1.Order.Type == 2
 call $T
 call matchPrice(A1, A2)
 post A1.Order.Status = 3
 post A1.Order.CancelReason = 7
 case !$T && $M && A1.Order.Type != 2 && $S == 2 || $S == 3
 call $T
 call matchPrice(A1, A2)
 call $TX
 post *A5 = append(*A5, $TX)
 post *A4 = append(*A4, A2)
 case !$T && $M && A1.Order.Type != 2 && $S == 1 && len(*A5) >= 99
 call $T
 call matchPrice(A1, A2)
 call $TX
 post *A5 = append(*A5, $TX)
 post *A4 = append(*A4, A2)
 post A1.Order.Status = 3
 post A1.Order.CancelReason = 4
 case !$T && $M && A1.Order.Type != 2 && $S != 1 || len(*A5) < 99 && $S != 2 && $S != 3 && !$N.R1
 call $T
 call matchPrice(A1, A2)
 call $TX
 call nextOrder(A3)
 post *A5 = append(*A5, $TX)
 post *A4 = append(*A4, A2)
 case !$T && $M && A1.Order.Type != 2 && $S != 1 || len(*A5) < 99 && $S != 2 && $S != 3 && $N.R1
 call $T
 call matchPrice(A1, A2)
 call $TX
 call nextOrder(A3)
 call $R
 at recursiveTakeOrder *A5 = append(*A5, $TX)
 at recursiveTakeOrder *A4 = append(*A4, A2)
 case $T && A1.Order.Status != 2 && A1.Order.Status != 3 && !$N.R1
 call $T
 call nextOrder(A3)
 post *A4 = append(*A4, A2)
 case $T && A1.Order.Status != 2 && A1.Order.Status != 3 && $N.R1
 call $T
 call nextOrder(A3)
 call $R
 at recursiveTakeOrder *A4 = append(*A4, A2)
 case $T && A1.Order.Status == 2 || A1.Order.Status == 3
 call $T
 post *A4 = append(*A4, A2)

fn Matcher.handleTakerRes
 effects
 watch checkMarketOrderAmtThreshold handleRefund saveOrder emitNewOrder
 ordered
 def K checkMarketOrderAmtThreshold(A1)
 def S after($K, A1.Order.Status)
 def T A1.Order.Type
 case $K
 call $K
 call handleRefund(A0, A1)
 call emitNewOrder(A0, _)
 case !$K && $S != 0 && $S != 1
 call $K
 call handleRefund(A0, A1)
 call emitNewOrder(A0, _)
 case !$K && $S == 0 || $S == 1 && $T != 1 && $T != 4 && $T != 3
 call $K
 call saveOrder(A0, _, true)
 call emitNewOrder(A0, _)
 case !$K && $S == 0 || $S == 1 && $T == 1 || $T == 4
 call $K
 call handleRefund(A0, A1)
 call emitNewOrder(A0, _)
 at handleRefund A1.Order.Status = 3
 at handleRefund A1.Order.CancelReason = 1
 case !$K && $S == 0 || $S == 1 && $T == 3
 call $K
 call handleRefund(A0, A1)
 call emitNewOrder(A0, _)
 at handleRefund A1.Order.Status = 3
 at handleRefund A1.Order.CancelReason = 8
 at handleRefund A1.Order.ExecutedAmount = nil
 at handleRefund A1.Order.ExecutedBaseFee = nil
 at handleRefund A1.Order.ExecutedOperatorFee = nil
 at handleRefund A1.Order.ExecutedQuantity = nil

fn checkMarketOrderAmtThreshold
 def E val(A0.Order.ExecutedAmount) + val(A0.Order.ExecutedBaseFee) + val(A0.Order.ExecutedOperatorFee)
 case A0.Order.Type == 1 && $E > val(A0.Order.MarketOrderAmtThreshold)
 ret 0 true
 post A0.Order.Status = 3
 post A0.Order.CancelReason = 9
 post A0.Order.ExecutedAmount = nil
 post A0.Order.ExecutedBaseFee = nil
 post A0.Order.ExecutedOperatorFee = nil
 post A0.Order.ExecutedQuantity = nil
 case A0.Order.Type != 1 || $E <= val(A0.Order.MarketOrderAmtThreshold)
 ret 0 false

fn Matcher.handleModifiedMakers
 effects
 def S A1[I].Order.Status
 watch handleRefund deleteOrder saveOrder emitOrderUpdate
 call each A1 : $S == 2 || $S == 3 ? handleRefund(A0, A1[I])
 call each A1 : $S == 2 || $S == 3 ? deleteOrder(A0, A1[I])
 call each A1 : $S != 2 && $S != 3 ? saveOrder(A0, *A1[I], false)
 call each A1 : emitOrderUpdate(A0, *A1[I])

fn Matcher.handleRefund
 effects
 watch updateFundSettle
 alt RF A1.Order.Side ? dif(A1.Order.Quantity, A1.Order.ExecutedQuantity) : sum(dif(A1.Order.Amount, A1.Order.ExecutedAmount), dif(dif(A1.Order.LockedBuyFee, A1.Order.ExecutedBaseFee), A1.Order.ExecutedOperatorFee))
 alt TK A1.Order.Side ? A0.MarketInfo.MarketInfo.TradeToken : A0.MarketInfo.MarketInfo.QuoteToken
 case A1.Order.Status != 2 && A1.Order.Status != 3
 case A1.Order.Status == 2 || A1.Order.Status == 3 && val($RF) > 0
 post A1.Order.RefundToken = $TK
 post A1.Order.RefundQuantity = $RF
 call updateFundSettle(A0, A1.Order.Address, X) where X obj IsTradeToken = A1.Order.Side; ReleaseLocked = $RF; IncAvailable = ZERO; ReduceLocked = ZERO
 case A1.Order.Status == 2 || A1.Order.Status == 3 && val($RF) <= 0
 post A1.Order.RefundToken = nil
 post A1.Order.RefundQuantity = nil

fn Matcher.handleTxs
 effects
 watch handleTxFundSettle AddLog
 call each A1 : handleTxFundSettle(A0, *A1[I])
 call each A1 : AddLog(A0.db, newLog(X)) where X obj Transaction = A1[I].Transaction

fn Matcher.handleTxFundSettle
 effects
 def T A1.Transaction
 def TF sum($T.TakerFee, $T.TakerOperatorFee)
 def MF sum($T.MakerFee, $T.MakerOperatorFee)
 watch updateFundSettle updateFee
 call updateFee(A0, A1.takerAddress, $T.TakerFee, $T.TakerOperatorFee)
 call updateFee(A0, A1.makerAddress, $T.MakerFee, $T.MakerOperatorFee)
 alt TI $T.TakerSide ? IsTradeToken = ZERO; IncAvailable = dif($T.Amount, $TF) : IsTradeToken = true; IncAvailable = $T.Quantity
 alt TO $T.TakerSide ? IsTradeToken = true; ReduceLocked = $T.Quantity : IsTradeToken = ZERO; ReduceLocked = sum($T.Amount, $TF)
 alt MI $T.TakerSide ? IsTradeToken = true; IncAvailable = $T.Quantity : IsTradeToken = ZERO; IncAvailable = dif($T.Amount, $MF)
 alt MO $T.TakerSide ? IsTradeToken = ZERO; ReduceLocked = sum($T.Amount, $MF) : IsTradeToken = true; ReduceLocked = $T.Quantity
 call updateFundSettle(A0, A1.takerAddress, X) where X obj ReleaseLocked = ZERO; ReduceLocked = ZERO; $TI
 call updateFundSettle(A0, A1.takerAddress, X) where X obj ReleaseLocked = ZERO; IncAvailable = ZERO; $TO
 call updateFundSettle(A0, A1.makerAddress, X) where X obj ReleaseLocked = ZERO; ReduceLocked = ZERO; $MI
 call updateFundSettle(A0, A1.makerAddress, X) where X obj ReleaseLocked = ZERO; IncAvailable = ZERO; $MO

fn Matcher.getOrderBookForTaker
 err 1
 def G getMakerBook(A0.db, A0.MarketInfo.MarketInfo.MarketId, !A1)
 ok $G.R1 == nil
 ret 0 $G.R0

fn Matcher.saveOrder
 effects
 watch setValueToDb SaveHashMapOrderId
 def Z Marshal(_)
 skip $Z.R1 != nil
 call setValueToDb(A0.db, A1.Order.Id, $Z.R0)
 call if A2 && len(A1.Order.SendHash) > 0 ? SaveHashMapOrderId(A0.db, A1.Order.SendHash, A1.Order.Id)

fn Matcher.deleteOrder
 effects
 watch setValueToDb DeleteHashMapOrderId
 call setValueToDb(A0.db, A1.Order.Id, nil)
 call if len(A1.Order.SendHash) > 0 ? DeleteHashMapOrderId(A0.db, A1.Order.SendHash)

fn calculateOrderAndTx
 case IsVersion12Upgrade(A3)
 ret 0 calculateOrderAndTxAfterUpgrade12(A0, A1, A2, A3)
 case !IsVersion12Upgrade(A3)
 ret 0 calculateOrderAndTxBeforeUpgrade12(A0, A1, A2, A3)

fn calculateOrderAmount
 def M CalculateRawAmount(A1, A2, A3)
 case !A0.Order.Side && val(A0.Order.Amount) < val(sum(A0.Order.ExecutedAmount, $M))
 ret 0 dif(A0.Order.Amount, A0.Order.ExecutedAmount)
 case A0.Order.Side || val(A0.Order.Amount) >= val(sum(A0.Order.ExecutedAmount, $M))
 ret 0 $M

fn calculateOrderQuantity
 ret 0 CalculateRawQuantity(A1, A2, A3)

fn updateOrder
 case IsVersion12Upgrade(A7)
 ret 0 updateOrderAfterUpgrade12(A0, A1, A2, A3, A4, A5, A6)
 case !IsVersion12Upgrade(A7)
 ret 0 updateOrderBeforeUpgrade12(A0, A1, A2, A3, A4, A5, A6)

fn updateOrderAfterUpgrade12
 def E A1 == dif(A0.Order.Quantity, A0.Order.ExecutedQuantity)
 def NE A1 != dif(A0.Order.Quantity, A0.Order.ExecutedQuantity)
 def A A2 == dif(A0.Order.Amount, A0.Order.ExecutedAmount)
 def NA A2 != dif(A0.Order.Amount, A0.Order.ExecutedAmount)
 def D IsDustOrderAfterUpgrade12(A0, A1, A2, A5, A6)
 case $E || $D
 ret 0 A2
 post A0.Order.Status = 2
 post A0.Order.ExecutedAmount = sum(A0.Order.ExecutedAmount, A2)
 post A0.Order.ExecutedBaseFee = A3
 post A0.Order.ExecutedOperatorFee = A4
 post A0.Order.ExecutedQuantity = sum(A0.Order.ExecutedQuantity, A1)
 case A0.Order.Type == 1 && !A0.Order.Side && $A
 ret 0 A2
 post A0.Order.Status = 2
 post A0.Order.ExecutedAmount = sum(A0.Order.ExecutedAmount, A2)
 post A0.Order.ExecutedBaseFee = A3
 post A0.Order.ExecutedOperatorFee = A4
 post A0.Order.ExecutedQuantity = sum(A0.Order.ExecutedQuantity, A1)
 case $NE && !$D && A0.Order.Type != 1 || A0.Order.Side || $NA
 ret 0 A2
 post A0.Order.Status = 1
 post A0.Order.ExecutedAmount = sum(A0.Order.ExecutedAmount, A2)
 post A0.Order.ExecutedBaseFee = A3
 post A0.Order.ExecutedOperatorFee = A4
 post A0.Order.ExecutedQuantity = sum(A0.Order.ExecutedQuantity, A1)

fn updateOrderBeforeUpgrade12
 def X sum(A0.Order.ExecutedAmount, A2)
 def E A1 == dif(A0.Order.Quantity, A0.Order.ExecutedQuantity)
 def NE A1 != dif(A0.Order.Quantity, A0.Order.ExecutedQuantity)
 def A A2 == dif(A0.Order.Amount, $X)
 def NA A2 != dif(A0.Order.Amount, $X)
 def D IsDustOrder(A0, A1, A5, A6)
 case $E || $D
 ret 0 A2
 post A0.Order.Status = 2
 post A0.Order.ExecutedAmount = $X
 post A0.Order.ExecutedBaseFee = A3
 post A0.Order.ExecutedOperatorFee = A4
 post A0.Order.ExecutedQuantity = sum(A0.Order.ExecutedQuantity, A1)
 case A0.Order.Type == 1 && !A0.Order.Side && $A
 ret 0 A2
 post A0.Order.Status = 2
 post A0.Order.ExecutedAmount = $X
 post A0.Order.ExecutedBaseFee = A3
 post A0.Order.ExecutedOperatorFee = A4
 post A0.Order.ExecutedQuantity = sum(A0.Order.ExecutedQuantity, A1)
 case $NE && !$D && A0.Order.Type != 1 || A0.Order.Side || $NA
 ret 0 A2
 post A0.Order.Status = 1
 post A0.Order.ExecutedAmount = $X
 post A0.Order.ExecutedBaseFee = A3
 post A0.Order.ExecutedOperatorFee = A4
 post A0.Order.ExecutedQuantity = sum(A0.Order.ExecutedQuantity, A1)

fn IsDustOrder
 case A0.Order.Type != 1
 ret 0 IsOrderDustForPrice(A0, A1, A2, A0.Order.Price)
 case A0.Order.Type == 1
 ret 0 IsOrderDustForPrice(A0, A1, A2, A3)

fn IsDustOrderAfterUpgrade12
 case A0.Order.Type != 1
 ret 0 IsOrderDustForPrice(A0, A1, A3, A0.Order.Price)
 case A0.Order.Type == 1 && !A0.Order.Side
 ret 0 IsOrderDustForAmount(A0, A2, 0 - A3, A4)
 case A0.Order.Type == 1 && A0.Order.Side
 ret 0 false

fn IsOrderDustForPrice
 ret 0 iff Cmp(CalculateRawAmountF(dif(dif(A0.Order.Quantity, A0.Order.ExecutedQuantity), A1), A3, A2), SetInt64(_, 1)) < 0

fn IsOrderDustForAmount
 ret 0 iff Cmp(CalculateRawQuantityF(dif(dif(A0.Order.Amount, A0.Order.ExecutedAmount), A1), A3, A2), SetInt64(_, 1)) < 0

fn CalculateRawQuantity
 ret 0 Bytes(FloorQuantity(CalculateRawQuantityF(A0, A1, A2)))

fn CalculateRawAmount
 ret 0 Bytes(RoundAmount(CalculateRawAmountF(A0, A1, A2)))

fn CalculateFeeAndExecutedFee
 def B calculateExecutedFee(A1, A2, A0.Order.Side, A0.Order.ExecutedBaseFee, A0.Order.LockedBuyFee, list(A0.Order.ExecutedBaseFee, A0.Order.ExecutedOperatorFee))
 def O calculateExecutedFee(A1, A3, A0.Order.Side, A0.Order.ExecutedOperatorFee, A0.Order.LockedBuyFee, list($B.R1, A0.Order.ExecutedOperatorFee))
 case $B.R2
 ret 0 $B.R0
 ret 1 $B.R1
 ret 2 $O.R0
 ret 3 $O.R1
 case !$B.R2 && IsDexFeeUpgrade(A4)
 ret 0 $B.R0
 ret 1 $B.R1
 ret 2 nil
 ret 3 A0.Order.ExecutedOperatorFee
 case !$B.R2 && !IsDexFeeUpgrade(A4)
 ret 0 $B.R0
 ret 1 $B.R1
 ret 2 nil
 ret 3 nil

fn newLog
 def TP GetTopicId(A0)
 ret 0.Topics append(nil, $TP)
 ret 0.Data toDataBytes(A0)

fn priceCompare
 ret 0 cmp3(A0, A1)

fn matchPrice
 def C priceCompare(A0.Order.Price, A1.Order.Price)
 case A0.Order.Type == 1 || $C == 0
 ret 1 A1.Order.Price
 ret 0 true
 case A0.Order.Type != 1 && $C != 0 && A0.Order.Side
 ret 1 A1.Order.Price
 ret 0 iff $C <= 0
 case A0.Order.Type != 1 && $C != 0 && !A0.Order.Side
 ret 1 A1.Order.Price
 ret 0 iff $C >= 0

fn filterTimeout
 def T GetTradeTimestamp(A0)
 def V IsVersion11DeprecateClearingExpiredOrder(A0)
 case $T == 0
 ret 0 false
 case $T != 0 && $T > A1.Order.Timestamp + 2592000 && !$V && A1.Order.Status == 0
 ret 0 true
 post A1.Order.Status = 3
 post A1.Order.CancelReason = 2
 case $T != 0 && $T > A1.Order.Timestamp + 2592000 && !$V && A1.Order.Status == 1
 ret 0 true
 post A1.Order.Status = 3
 post A1.Order.CancelReason = 5
 case $T != 0 && $T > A1.Order.Timestamp + 2592000 && !$V && A1.Order.Status != 0 && A1.Order.Status != 1
 ret 0 true
 post A1.Order.Status = 3
 post A1.Order.CancelReason = 6
 case $T != 0 && $T <= A1.Order.Timestamp + 2592000 || $V
 ret 0 false

fn generateTxId
 ret 0 Hash(20, list(A0, A1))

fn getMakerBook
 def I NewStorageIterator(A0, getBookPrefix(_))
 skip $I.R1 != nil
 ret 0.db A0
 ret 0.marketId A1
 ret 0.side A2
 ret 0.iterator $I.R0

fn levelDbBook.nextOrder
 def N Next(A0.iterator)
 def K Key(A0.iterator)
 def V Value(A0.iterator)
 def D DeSerializeCompact(_, $V, $K)
 skip panic
 case !$N && Error(A0.iterator) == nil
 ret 0 nil
 ret 1 false
 case $N && len($K) == 22 && len($V) != 0 && $D == nil
 ret 0 NEW
 ret 1 true

fn levelDbBook.release
 effects
 watch Release
 call Release(A0.iterator)

fn getBookPrefix
 case A0.side
 ret 0 bytes Uint32ToBytes(A0.marketId)[1:]; 1
 case !A0.side
 ret 0 bytes Uint32ToBytes(A0.marketId)[1:]; 0

fn Order.Serialize
 def M Marshal(&A0.Order)
 err 1
 ok $M.R1 == nil
 ret 0 $M.R0
 at Marshal A0.Order.Id = A0.Order.Id
 post A0.Order.MarketId = 0
 post A0.Order.Side = false
 post A0.Order.Price = nil
 post A0.Order.Timestamp = 0

fn Order.SerializeCompact
 def M Serialize(A0)
 err 1
 ok $M.R1 == nil
 ret 0 $M.R0
 at Serialize A0.Order.Id = nil

fn Order.RenderOrderById
 def D DeComposeOrderId(A1)
 err 0
 ok $D.R4 == nil
 post A0.Order.MarketId = $D.R0
 post A0.Order.Side = $D.R1
 post A0.Order.Price = $D.R2
 post A0.Order.Timestamp = $D.R3

fn Order.DeSerialize
 def U Unmarshal(A1, X)
 def R RenderOrderById(A0, out(_, _).Id)
 err 0
 touch &A0.Order
 ok $U == nil
 ok $R == nil

fn Order.DeSerializeCompact
 def U Unmarshal(A1, X)
 def R RenderOrderById(A0, A2)
 err 0
 touch &A0.Order
 ok $U == nil
 ok $R == nil
 at RenderOrderById A0.Order.Id = A2

fn GetMarketInfoById
 def D deserializeFromDb(A0, GetMarketInfoKeyById(A1), X)
 ret 0 NEW
 ret 1 $D

fn SaveMarketInfoById
 effects
 watch serializeToDb
 call serializeToDb(A0, GetMarketInfoKeyById(A1.MarketInfo.MarketId), A1)

fn GetMarketInfoKeyById
 ret 0 bytes marketByMarketIdPrefix; Uint32ToBytes(A0)

fn SetTradeTimestamp
 effects
 watch setValueToDb
 call setValueToDb(A0, tradeTimestampKey, Uint64ToBytes(A1)) 

fn GetTradeTimestamp
 def V getValueFromDb(A0, tradeTimestampKey)
 case len($V) == 8
 ret 0 rdbe64($V)
 case len($V) != 8
 ret 0 0

fn SaveHashMapOrderId
 effects
 watch setValueToDb
 call setValueToDb(A0, GetHashMapOrderIdKey(A1), A2)

fn DeleteHashMapOrderId
 effects
 watch setValueToDb
 call setValueToDb(A0, GetHashMapOrderIdKey(A1), nil)

fn GetOrderIdByHash
 def V getValueFromDb(A0, GetHashMapOrderIdKey(A1))
 case len($V) == 22
 ret 0 $V
 ret 1 true
 case len($V) != 22
 ret 0 nil
 ret 1 false

fn GetHashMapOrderIdKey
 ret 0 bytes sendHashMapOrderIdPrefixKey; A0[len(sendHashMapOrderIdPrefixKey):]

fn TryUpdateTimestamp
 effects
 watch SetTradeTimestamp
 call if A2[0] < 32 ? SetTradeTimestamp(A0, A1)

fn getValueFromDb
 def G GetValue(A0, A1)
 skip $G.R1 != nil
 ret 0 $G.R0

fn setValueToDb
 def S SetValue(A0, A1, A2)
 effects
 skip $S != nil
 set A1 = A2

fn Uint64ToBytes
 ret 0 bytes be64(A0)

fn BytesToUint64
 ret 0 rdbe64(A0)

fn Uint32ToBytes
 ret 0 bytes be32(A0)

fn BytesToUint32
 ret 0 rdbe32(A0)

fn AdjustForDecimalsDiff
 case A1 == 0
 ret 0 A0
 case A1 > 0
 ret 0 Quo(_, A0, SetInt(SetPrec(_, 120), Exp(10, A1, nil)))
 case A1 < 0
 ret 0 Mul(_, A0, SetInt(SetPrec(_, 120), Exp(10, 0 - A1, nil)))

fn RoundAmount
 ret 0 Int(Add(SetPrec(_, 120), A0, NewFloat(HALF)), nil).R0

fn FloorQuantity
 ret 0 Int(A0, nil).R0

fn CalculateRawAmountF
 ret 0 AdjustForDecimalsDiff(Mul(SetPrec(_, 120), flt(BytesToPrice(A1)), SetInt(SetPrec(_, 120), val(A0))), A2)

fn CalculateRawQuantityF
 ret 0 AdjustForDecimalsDiff(Quo(SetPrec(_, 120), SetInt(SetPrec(_, 120), val(A0)), flt(BytesToPrice(A1))), A2)

fn CalculateAmountForRate
 case A1 <= 0
 ret 0 nil
 case A1 > 0
 ret 0 Bytes(RoundAmount(Mul(SetPrec(_, 120), SetInt(SetPrec(_, 120), val(A0)), flt(CardinalRateToString(A1)))))

fn AdjustAmountForDecimalsDiff
 ret 0 RoundAmount(AdjustForDecimalsDiff(SetInt(SetPrec(_, 120), val(A0)), A1))

fn calculateOrderAndTxAfterUpgrade12
 def DD A2.MarketInfo.TradeTokenDecimals - A2.MarketInfo.QuoteTokenDecimals
 def RQ A2.MarketInfo.QuoteTokenDecimals - A2.MarketInfo.TradeTokenDecimals
 def TQ dif(A0.Order.Quantity, A0.Order.ExecutedQuantity)
 def MQ dif(A1.Order.Quantity, A1.Order.ExecutedQuantity)
 def BQ MinBigInt($TQ, calculateOrderQuantity(A0, dif(A0.Order.Amount, A0.Order.ExecutedAmount), A1.Order.Price, $RQ))
 alt Q A0.Order.Type == 1 && !A0.Order.Side ? MinBigInt($BQ, $MQ) : MinBigInt($TQ, $MQ)
 def AM MinBigInt(calculateOrderAmount(A0, $Q, A1.Order.Price, $DD), calculateOrderAmount(A1, $Q, A1.Order.Price, $DD))
 def TF CalculateFeeAndExecutedFee(A0, $AM, A0.Order.TakerFeeRate, A0.Order.TakerOperatorFeeRate, A3)
 def MF CalculateFeeAndExecutedFee(A1, $AM, A1.Order.MakerFeeRate, A1.Order.MakerOperatorFeeRate, A3)
 watch updateOrder updateOrderAfterUpgrade12 updateOrderBeforeUpgrade12
 at CalculateFeeAndExecutedFee A0.Order.ExecutedBaseFee = A0.Order.ExecutedBaseFee
 at CalculateFeeAndExecutedFee A1.Order.ExecutedBaseFee = A1.Order.ExecutedBaseFee
 at calculateOrderAmount A0.Order.ExecutedAmount = A0.Order.ExecutedAmount
 ret 0.Transaction.Id generateTxId(A0.Order.Id, A1.Order.Id)
 ret 0.Transaction.TakerSide A0.Order.Side
 ret 0.Transaction.TakerId A0.Order.Id
 ret 0.Transaction.MakerId A1.Order.Id
 ret 0.Transaction.Price A1.Order.Price
 ret 0.Transaction.Quantity $Q
 ret 0.Transaction.Amount $AM
 ret 0.Transaction.Timestamp A0.Order.Timestamp
 ret 0.Transaction.TakerFee $TF.R0
 ret 0.Transaction.TakerOperatorFee $TF.R2
 ret 0.Transaction.MakerFee $MF.R0
 ret 0.Transaction.MakerOperatorFee $MF.R2
 ret 0.takerAddress A0.Order.Address
 ret 0.makerAddress A1.Order.Address
 ret 0.tradeToken A2.MarketInfo.TradeToken
 ret 0.quoteToken A2.MarketInfo.QuoteToken
 call updateOrderAfterUpgrade12(A0, $Q, $AM, $TF.R1, $TF.R3, $DD, A1.Order.Price)
 call updateOrderAfterUpgrade12(A1, $Q, $AM, $MF.R1, $MF.R3, $DD, A1.Order.Price)

fn calculateOrderAndTxBeforeUpgrade12
 def DD A2.MarketInfo.TradeTokenDecimals - A2.MarketInfo.QuoteTokenDecimals
 def Q MinBigInt(dif(A0.Order.Quantity, A0.Order.ExecutedQuantity), dif(A1.Order.Quantity, A1.Order.ExecutedQuantity))
 def AM MinBigInt(calculateOrderAmount(A0, $Q, A1.Order.Price, $DD), calculateOrderAmount(A1, $Q, A1.Order.Price, $DD))
 def TF CalculateFeeAndExecutedFee(A0, $AM, A0.Order.TakerFeeRate, A0.Order.TakerOperatorFeeRate, A3)
 def MF CalculateFeeAndExecutedFee(A1, $AM, A1.Order.MakerFeeRate, A1.Order.MakerOperatorFeeRate, A3)
 watch updateOrder updateOrderAfterUpgrade12 updateOrderBeforeUpgrade12
 at CalculateFeeAndExecutedFee A0.Order.ExecutedBaseFee = A0.Order.ExecutedBaseFee
 at CalculateFeeAndExecutedFee A1.Order.ExecutedBaseFee = A1.Order.ExecutedBaseFee
 at calculateOrderAmount A0.Order.ExecutedAmount = A0.Order.ExecutedAmount
 ret 0.Transaction.Id generateTxId(A0.Order.Id, A1.Order.Id)
 ret 0.Transaction.TakerSide A0.Order.Side
 ret 0.Transaction.TakerId A0.Order.Id
 ret 0.Transaction.MakerId A1.Order.Id
 ret 0.Transaction.Price A1.Order.Price
 ret 0.Transaction.Quantity $Q
 ret 0.Transaction.Amount $AM
 ret 0.Transaction.Timestamp A0.Order.Timestamp
 ret 0.Transaction.TakerFee $TF.R0
 ret 0.Transaction.TakerOperatorFee $TF.R2
 ret 0.Transaction.MakerFee $MF.R0
 ret 0.Transaction.MakerOperatorFee $MF.R2
 ret 0.takerAddress A0.Order.Address
 ret 0.makerAddress A1.Order.Address
 ret 0.tradeToken A2.MarketInfo.TradeToken
 ret 0.quoteToken A2.MarketInfo.QuoteToken
 call updateOrder(A0, $Q, $AM, $TF.R1, $TF.R3, $DD, A1.Order.Price, A3)
 call updateOrder(A1, $Q, $AM, $MF.R1, $MF.R3, $DD, A1.Order.Price, A3)

fn AccountSettleSorter.Less
 ret 0 iff A0[A1].IsTradeToken

fn FundSettleSorter.Less
 ret 0 iff A0[A1].Address < A0[A2].Address

fn FeeSettleSorter.Less
 ret 0 iff A0[A1].Address < A0[A2].Address

fn Matcher.emitNewOrder
 watch AddLog
 call AddLog(A0.db, newLog(X)) where X obj NewOrderInfo.Order = _; NewOrderInfo.TradeToken = A0.MarketInfo.MarketInfo.TradeToken; NewOrderInfo.QuoteToken = A0.MarketInfo.MarketInfo.QuoteToken

fn Matcher.emitOrderUpdate
 watch AddLog
 def O A1.Order
 call AddLog(A0.db, newLog(X)) where X obj OrderUpdateInfo.Id = $O.Id; OrderUpdateInfo.TradeToken = A0.MarketInfo.MarketInfo.TradeToken; OrderUpdateInfo.QuoteToken = A0.MarketInfo.MarketInfo.QuoteToken; OrderUpdateInfo.Status = $O.Status; OrderUpdateInfo.CancelReason = $O.CancelReason; OrderUpdateInfo.ExecutedQuantity = $O.ExecutedQuantity; OrderUpdateInfo.ExecutedAmount = $O.ExecutedAmount; OrderUpdateInfo.ExecutedBaseFee = $O.ExecutedBaseFee; OrderUpdateInfo.ExecutedOperatorFee = $O.ExecutedOperatorFee; OrderUpdateInfo.RefundToken = $O.RefundToken; OrderUpdateInfo.RefundQuantity = $O.RefundQuantity

fn DeComposeOrderId
 err 4
 ok len(A0) == 22
 case A0[3] == 1
 ret 0 rdbe32(X) where X bytes 0; sub(A0, nil, 3)
 ret 1 true
 ret 2 bytes sub(A0, 4, 14)
 ret 3 rdbe64(X) where X bytes 0; 0; 0; sub(A0, 14, 19)
 case A0[3] != 1
 ret 0 rdbe32(X) where X bytes 0; sub(A0, nil, 3)
 ret 1 false
 call BitwiseNotBytes(X) where X bytes sub(A0, 4, 14)
 ret 3 rdbe64(X) where X bytes 0; 0; 0; sub(A0, 14, 19)

fn ComposeOrderId
 watch BitwiseNotBytes NewAndSaveOrderSerialNo
 def T GetTimestampInt64(A0)
 def S NewAndSaveOrderSerialNo(A0, $T)
 case A2
 call $S
 ret 0 bytes sub(Uint32ToBytes(A1), 1, nil); 1; PriceToBytes(A3); sub(Uint64ToBytes($T), 3, nil); sub(Uint32ToBytes($S), 1, nil)
 case !A2
 call BitwiseNotBytes(PriceToBytes(A3))
 call $S

fn Matcher.GetOrdersFromMarket
 err 2
 def B getMakerBook(A0.db, A0.MarketInfo.MarketInfo.MarketId, A1)
 ok A2 >= A3 || $B.R1 == nil
 case A2 >= A3
 ret 0 nil
 ret 1 0
 case A2 < A3

fn NewAndSaveOrderSerialNo
 watch serializeToDb
 def D deserializeFromDb(A0, orderIdSerialNoKey, NEW)
 def L out($D, _)
 case !$D
 ret 0 0
 call serializeToDb(A0, orderIdSerialNoKey, X) where X obj SerialNo.Timestamp = A1; SerialNo.No = 0
 case $D && A1 != field($L, ___)
 ret 0 0
 call serializeToDb(A0, orderIdSerialNoKey, X) where X obj SerialNo.Timestamp = A1; SerialNo.No = 0
 case $D && A1 == field($L, ___)
 ret 0 field($L, ___) + 1
 call serializeToDb(A0, orderIdSerialNoKey, X) where X obj SerialNo.Timestamp = A1; SerialNo.No = field($L, ___) + 1

fn deserializeFromDb
 def V getValueFromDb(A0, A1)
 def D DeSerialize(A2, $V)
 skip $D != nil
 case len($V) > 0 && $D == nil
 ret 0 true
 case len($V) <= 0
 ret 0 false

fn serializeToDb
 def S Serialize(A2)
 effects
 watch setValueToDb
 skip $S.R1 != nil
 call setValueToDb(A0, A1, $S.R0)
`

func init() {
	register(&Prop{
		ID:    "C30",
		Title: "The exchange matches at the best price and settles every trade exactly",
		Statement: "A new order is matched with the other side's orders of its market in the order of the book (best price first, then age), only at prices its limit allows and at the maker's price, for the smaller open quantity, until it is filled, nothing matches or its type ends it; what is left is kept in the book, cancelled or refunded as its type says. " +
			"Every trade adds the same quantity and amount to both orders, charges each side its fee within what a buyer locked, releases and pays exactly these amounts to the two accounts and the fee account, and is reported once; a cancelled, expired or failed order gives back exactly what is still locked, to its owner, and only its owner or agent can cancel it. " +
			"Order ids hold market, side, price, time and a serial number so that the book is sorted, stored orders are read back as they were written, and the settlements handed to the fund contract are complete and in an order every node computes.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all orders, books, market settings and upgrade heights",
		Why:       "Partial fills, dust, market orders without a limit, fees that exhaust the locked amount and expired makers in the middle of a match need combinations the tests do not reach, and a wrong amount is money lost or created.",
		Files:     []string{"vm/contracts/dex/matcher.go", "vm/contracts/dex/order.go", "vm/contracts/dex/leveldb_book.go", "vm/contracts/dex/calculator.go", "vm/contracts/dex/trade_helper.go", "vm/contracts/dex/utils.go", "vm/contracts/contracts_dex_trade.go"},
		Mech:      [][2]string{{"match", "vm/contracts/dex/matcher.go recursiveTakeOrder"}, {"trade", "vm/contracts/dex/matcher.go calculateOrderAndTx"}, {"fees", "vm/contracts/dex/matcher.go calculateExecutedFee"}, {"settle", "vm/contracts/dex/matcher.go handleTxFundSettle"}, {"refund", "vm/contracts/dex/matcher.go handleRefund"}, {"ids", "vm/contracts/dex/utils.go ComposeOrderId"}, {"contract", "vm/contracts/contracts_dex_trade.go handleSettleActions"}},
		Technique: "path enumeration of every function of the matching engine with its helpers taken as functions: acceptance conditions, results, the fields of both orders before and after each step, ordered effects and loop recurrences compared with a specification",
		Note:      "The conversion between decimal prices and their ten bytes (PriceToBytes, BytesToPrice) and the accuracy of 120-bit floating point are not decided; cleaning of expired orders in bulk, which upgrade 11 ended, only at its entry.",
		Run:       runC30,
	})
}

var dexOpaque = strings.Fields("CmpForBigInt GetMarketInfoById getOrderBookForTaker doMatchTaker release getValueFromDb DeSerializeCompact handleRefund emitOrderUpdate emitNewOrder deleteOrder saveOrder nextOrder handleTakerRes recursiveTakeOrder handleModifiedMakers handleTxs GenerateHeightPoint TryUpdateTimestamp filterTimeout matchPrice calculateOrderAndTx checkMarketOrderAmtThreshold updateFundSettle updateFee handleTxFundSettle newLog getMakerBook setValueToDb SaveHashMapOrderId DeleteHashMapOrderId CalculateRawAmount CalculateRawQuantity calculateOrderAmount calculateOrderAndTxAfterUpgrade12 calculateOrderAndTxBeforeUpgrade12 updateOrderAfterUpgrade12 updateOrderBeforeUpgrade12 IsDustOrder IsDustOrderAfterUpgrade12 CalculateFeeAndExecutedFee MinBigInt IsOrderDustForPrice IsOrderDustForAmount CalculateRawAmountF CalculateRawQuantityF RoundAmount FloorQuantity calculateExecutedFee priceCompare GetTradeTimestamp IsVersion11DeprecateClearingExpiredOrder getBookPrefix DeSerialize Serialize RenderOrderById DeComposeOrderId deserializeFromDb serializeToDb GetMarketInfoKeyById GetHashMapOrderIdKey SetTradeTimestamp Uint32ToBytes BytesToPrice CardinalRateToString AdjustForDecimalsDiff calculateOrderQuantity updateOrder generateTxId CalculateAmountForRate BitwiseNotBytes PriceToBytes Uint64ToBytes GetTimestampInt64 NewAndSaveOrderSerialNo")

func runC30(c *Ctx) {
	for _, s := range parseSpecs(macros(dexSpec, dexMacros)) {
		var opaque []string
		for _, n := range dexOpaque {
			if !strings.HasSuffix("."+s.fn, "."+n) && !(n == "Serialize" && s.fn == "Matcher.saveOrder") {
				opaque = append(opaque, n)
			}
		}
		e := c.Opts([]string{dexPkg}, opaque...)
		e.modParams = true
		c.specFn(e, dexPkg, s, "exchange")
	}
	for _, s := range parseSpecs(macros(dexTradeSpec, dexMacros)) {
		var opaque []string
		for _, n := range dexTradeOpaque {
			if n != s.fn {
				opaque = append(opaque, n)
			}
		}
		e := c.Opts([]string{ctPkg}, opaque...)
		e.modParams = true
		c.specFn(e, ctPkg, s, "exchange contract")
	}
	c.dexHand()
	c.dexSettle()
}

var dexTradeOpaque = strings.Fields("UnpackMethod DeSerialize NewMatcher MatchOrder OnPlaceOrderFailed handleSettleActions GetFundSettles GetFees handleDexReceiveErr handleCancelOrderById GetOrderIdByHash SaveMarketInfoById CleanExpireOrders IsVersion11DeprecateClearingExpiredOrder DeComposeOrderId GetOrderById CancelOrderById")

const dexTradeSpec = `
fn MethodDexTradePlaceOrder.DoSend
 err 0
 ok A2.AccountAddress == AddressDexFund
 ok UnpackMethod(ABIDexTrade, _, A0.MethodName, A2.Data) == nil

fn MethodDexTradeSyncNewMarket.DoSend
 err 0
 ok A2.AccountAddress == AddressDexFund
 ok UnpackMethod(ABIDexTrade, _, A0.MethodName, A2.Data) == nil

fn MethodDexTradeInnerCancelOrderBySendHash.DoSend
 err 0
 ok A2.AccountAddress == AddressDexFund
 ok UnpackMethod(ABIDexTrade, _, A0.MethodName, A2.Data) == nil

fn MethodDexTradeCancelOrder.DoSend
 err 0
 ok UnpackMethod(ABIDexTrade, _, A0.MethodName, A2.Data) == nil

fn MethodDexTradePlaceOrder.DoReceive
 plain
 def D unp(ABIDexTrade, A0.MethodName, A3.Data).Data
 def N NewMatcher(A1, field(out(DeSerialize(_, $D), _), ___))
 def M $N.R0
 def H handleSettleActions(A1, A2, GetFundSettles($M), GetFees($M), $M.MarketInfo)
 watch MatchOrder OnPlaceOrderFailed handleSettleActions
 skip panic
 case $N.R1 != nil
 ret 0 handleDexReceiveErr(_, A0.MethodName, $N.R1, A3).R0
 ret 1 handleDexReceiveErr(_, A0.MethodName, $N.R1, A3).R1
 case $N.R1 == nil && MatchOrder($M, NEW, A2.PrevHash) != nil
 call MatchOrder($M, NEW, A2.PrevHash)
 call OnPlaceOrderFailed(A1, NEW, $M.MarketInfo)
 ret 0 OnPlaceOrderFailed(A1, NEW, $M.MarketInfo).R0
 ret 1 OnPlaceOrderFailed(A1, NEW, $M.MarketInfo).R1
 case $N.R1 == nil && MatchOrder($M, NEW, A2.PrevHash) == nil && $H.R1 != nil
 call MatchOrder($M, NEW, A2.PrevHash)
 call $H
 call OnPlaceOrderFailed(A1, NEW, $M.MarketInfo)
 ret 0 OnPlaceOrderFailed(A1, NEW, $M.MarketInfo).R0
 ret 1 OnPlaceOrderFailed(A1, NEW, $M.MarketInfo).R1
 case $N.R1 == nil && MatchOrder($M, NEW, A2.PrevHash) == nil && $H.R1 == nil
 call MatchOrder($M, NEW, A2.PrevHash)
 call $H
 ret 0 $H.R0

fn MethodDexTradeCancelOrder.DoReceive
 plain
 def P unp(ABIDexTrade, A0.MethodName, A3.Data)
 ret 0 handleCancelOrderById(A1, $P.OrderId, A3.AccountAddress, A0.MethodName, A2, A3).R0
 ret 1 handleCancelOrderById(A1, $P.OrderId, A3.AccountAddress, A0.MethodName, A2, A3).R1

fn MethodDexTradeCancelOrderByTransactionHash.DoReceive
 plain
 def O GetOrderIdByHash(A1, unp(ABIDexTrade, A0.MethodName, A3.Data))
 def H handleCancelOrderById(A1, $O.R0, A3.AccountAddress, A0.MethodName, A2, A3)
 def E handleDexReceiveErr(_, A0.MethodName, InvalidOrderHashErr, A3)
 case $O.R1
 ret 0 $H.R0
 ret 1 $H.R1
 case !$O.R1
 ret 0 $E.R0
 ret 1 $E.R1

fn MethodDexTradeInnerCancelOrderBySendHash.DoReceive
 plain
 def P unp(ABIDexTrade, A0.MethodName, A3.Data)
 def O GetOrderIdByHash(A1, $P.SendHash)
 def H handleCancelOrderById(A1, $O.R0, $P.Owner, A0.MethodName, A2, A3)
 def E handleDexReceiveErr(_, A0.MethodName, InvalidOrderHashErr, A3)
 case $O.R1
 ret 0 $H.R0
 ret 1 $H.R1
 case !$O.R1
 ret 0 $E.R0
 ret 1 $E.R1

fn MethodDexTradeSyncNewMarket.DoReceive
 plain
 def P unp(ABIDexTrade, A0.MethodName, A3.Data)
 def D MarketInfo.DeSerialize(NEW, $P.Data)
 watch SaveMarketInfoById
 case $D == nil
 call SaveMarketInfoById(A1, NEW)
 ret 0 nil
 ret 1 nil
 case $D != nil
 ret 0 handleDexReceiveErr(_, A0.MethodName, $D, A3).R0
 ret 1 handleDexReceiveErr(_, A0.MethodName, $D, A3).R1

fn MethodDexTradeClearExpiredOrders.DoReceive
 plain
 def D unp(ABIDexTrade, A0.MethodName, A3.Data).Data
 def C CleanExpireOrders(A1, $D)
 def H handleSettleActions(A1, A2, $C.R0, nil, $C.R1)
 watch CleanExpireOrders handleSettleActions
 case IsVersion11DeprecateClearingExpiredOrder(A1)
 ret 0 nil
 ret 1 InvalidOperationErr
 case len($D) == 0 || len($D) % 22 != 0 || len($D) / 22 > 200
 ret 1 handleDexReceiveErr(_, A0.MethodName, InvalidInputParamErr, A3).R1
 case $C.R2 != nil
 call $C
 ret 1 handleDexReceiveErr(_, A0.MethodName, $C.R2, A3).R1
 case $C.R2 == nil && len($C.R0) <= 0
 call $C
 ret 0 nil
 ret 1 nil
 case $C.R2 == nil && len($C.R0) != 0 && $H.R1 == nil
 call $C
 call $H
 ret 0 $H.R0
 ret 1 nil
 case $C.R2 == nil && len($C.R0) != 0 && $H.R1 != nil
 call $C
 call $H
 ret 1 handleDexReceiveErr(_, A0.MethodName, $H.R1, A3).R1

fn handleCancelOrderById
 err 1
 def N NewMatcher(A0, DeComposeOrderId(A1).R0)
 def G GetOrderById($N.R0, A1)
 def O $G.R0
 def H handleSettleActions(A0, A4, GetFundSettles($N.R0), nil, $N.R0.MarketInfo)
 watch CancelOrderById handleSettleActions
 skip handleDexReceiveErr(___).R1 == nil
 ok DeComposeOrderId(A1).R4 == nil
 ok $N.R1 == nil
 ok $G.R1 == nil
 ok A2 == $O.Order.Address || A2 == $O.Order.Agent
 ok $O.Order.Status == 0 || $O.Order.Status == 1
 ok $H.R1 == nil
 call CancelOrderById($N.R0, $O)
 call $H
 ret 0 $H.R0
`

// dexHand: the functions whose effects the specification language does not
// express.
func (c *Ctx) dexHand() {
	paths := func(fn, opaque string) []*Path {
		f := c.Func(dexPkg, fn)
		if f == nil {
			return nil
		}
		e := c.Opts([]string{dexPkg}, strings.Fields(opaque)...)
		e.modParams = true
		ps := c.all(c.Paths(e, f))
		c.Ob(len(ps) > 0, "exchange", fn, c.where(f), "no path returns")
		return ps
	}
	ob := func(p *Path, fn string, ok bool, f string, args ...interface{}) {
		c.Ob(ok, "exchange", fn, p.where(), "%s: %s", fmt.Sprintf(f, args...), p.Describe())
	}
	key := func(t *Term) bool { return isT(t, "bytesw(ZERO, 0, _, A1)") || isT(t, "A1") }
	// the object at m[k]: found there, or put there by the path
	entry := func(p *Path, m, k func(*Term) bool) (old bool, obj *Term, why string) {
		var sets []*Event
		for _, ev := range p.Evs {
			if ev.Kind == "mapset" && m(stripConv(ev.Args[0])) {
				sets = append(sets, ev)
			}
		}
		for _, f := range p.F {
			t := f.A
			if t.Op == "mapok" && m(stripConv(t.Args[0])) && k(t.Args[1]) && f.Mask == EQ {
				if len(sets) > 0 {
					return true, nil, "an entry that exists is replaced"
				}
				for _, g := range p.seen("mapget") {
					if m(stripConv(g.Args[0])) && k(g.Args[1]) {
						return true, g, ""
					}
				}
				return true, nil, "the entry is not read"
			}
		}
		if len(sets) != 1 || !k(sets[0].Args[1]) {
			return false, nil, "a missing entry is not added under its key"
		}
		return false, stripConv(sets[0].Args[2]), ""
	}
	fresh := func(p *Path) bool { // a key cannot be in a map just made
		for _, f := range p.F {
			if f.A.Op == "mapok" && strings.HasPrefix(f.A.Args[0].Op, "mkmap") && f.Mask == EQ {
				return true
			}
		}
		return false
	}
	field := func(p *Path, o *Term, f string) *Term { return p.o.st.load(mkFA(o, f, nil2)) }
	adds := func(p *Path, fn string, old bool, o *Term, f, by string) {
		v := field(p, o, f)
		q := p.with("X", o)
		ok := old && q.isV(v, macros("sum(X."+f+", "+by+")", dexMacros)) ||
			!old && (p.isV(v, by) || p.isV(v, macros("Bytes(val("+by+"))", dexMacros)) || p.isV(v, macros("sum(ZERO, "+by+")", dexMacros)))
		ob(p, fn, ok, "%s becomes %s", f, trunc(v.String(), 300))
	}
	// the stores a path makes outside its own objects
	stores := func(p *Path, fn string, o *Term, names string) {
		walkEvents(p.Evs, func(ev *Event) {
			if ev.Kind == "store" && !pathLocal(ev.Args[0]) {
				a := ev.Args[0]
				ob(p, fn, a.Op == "fa" && stripConv(a.Args[0]) == o && strings.Contains(" "+names+" ", " "+a.Sym+" "), "writes %s", trunc(a.String(), 200))
			}
		})
	}
	for _, p := range paths("Matcher.updateFundSettle", "") {
		const fn = "updateFundSettle"
		if p.Holds("len(A1) != 21") || fresh(p) {
			continue
		}
		_, m, why := entry(p, func(t *Term) bool { return isT(t, "A0.fundSettles") }, key)
		if m == nil {
			ob(p, fn, false, "%s", why)
			continue
		}
		old, o, why := entry(p, func(t *Term) bool { return t == stripConv(m) }, func(t *Term) bool { return isT(t, "A2.IsTradeToken") })
		if o == nil {
			ob(p, fn, false, "%s", why)
			continue
		}
		if !old {
			ob(p, fn, p.isV(field(p, o, "IsTradeToken"), "A2.IsTradeToken"), "a new entry for the wrong token")
		}
		for _, f := range []string{"IncAvailable", "ReleaseLocked", "ReduceLocked"} {
			adds(p, fn, old, o, f, "A2."+f)
		}
		stores(p, fn, o, "IncAvailable ReleaseLocked ReduceLocked")
	}
	for _, p := range paths("Matcher.updateFee", "") {
		const fn = "updateFee"
		if p.Holds("len(A1) != 21") {
			continue
		}
		old, o, why := entry(p, func(t *Term) bool { return isT(t, "A0.feeSettles") }, key)
		if o == nil {
			ob(p, fn, false, "%s", why)
			continue
		}
		if !old {
			ob(p, fn, p.isV(field(p, o, "Address"), "A1"), "a new entry for the wrong address")
		}
		adds(p, fn, old, o, "BaseFee", "A2")
		adds(p, fn, old, o, "OperatorFee", "A3")
		stores(p, fn, o, "BaseFee OperatorFee")
	}
	for _, p := range paths("calculateExecutedFee", "CmpForBigInt CalculateAmountForRate") {
		const fn = "calculateExecutedFee"
		res := func(inc, exe, leaved string) {
			ob(p, fn, p.isV(p.o.res[0], inc), "the fee is %s", trunc(p.o.res[0].String(), 300))
			ob(p, fn, p.isV(p.o.res[1], macros(exe, dexMacros)), "the fees so far are %s", trunc(p.o.res[1].String(), 300))
			ob(p, fn, p.isV(p.o.res[2], leaved), "what is left is %s", p.o.res[2])
		}
		const f = "CalculateAmountForRate(A0, A1)"
		switch {
		case p.Holds("A1 == 0"):
			res("nil", "A3", "true")
		case p.Holds("A2"):
			res(f, "sum(A3, "+f+")", "true")
		case p.Holds("!A2"):
			ls := p.loopsOver("A5")
			if len(ls) != 1 || !ls[0].full {
				ob(p, fn, false, "does not add up every amount used")
				continue
			}
			ev := ls[0].ev
			var tot *Term
			for _, ph := range ev.Loop.Phis {
				q := p.with("X", ph.Iter)
				q.B["Y"] = ls[0].idx
				good := isT(ph.Init, "ZERO")
				for _, n := range ph.Next {
					good = good && q.isV(n, "Bytes(SetBytes(X) + SetBytes(A5[Y]))")
				}
				if good && len(ph.Next) > 0 {
					tot = ph.Iter
				}
			}
			if tot == nil {
				ob(p, fn, false, "does not add up every amount used")
				continue
			}
			p = p.with("X", tot)
			switch {
			case p.Holds("CmpForBigInt(A4, X) <= 0"):
				res("nil", "A3", "false")
			case p.Holds("CmpForBigInt(A4, X) > 0") && p.Holds(macros("CmpForBigInt(A4, sum(X, "+f+")) <= 0", dexMacros)):
				const d = "Bytes(SetBytes(A4) - SetBytes(X))"
				res(d, "sum(A3, "+d+")", "false")
			case p.Holds("CmpForBigInt(A4, X) > 0") && p.Holds(macros("CmpForBigInt(A4, sum(X, "+f+")) > 0", dexMacros)):
				res(f, "sum(A3, "+f+")", "true")
			default:
				ob(p, fn, false, "no specified case applies")
			}
		default:
			ob(p, fn, false, "no specified case applies")
		}
	}
	for _, p := range paths("ComposeOrderId", "Uint32ToBytes Uint64ToBytes PriceToBytes BitwiseNotBytes GetTimestampInt64 NewAndSaveOrderSerialNo") {
		const fn = "ComposeOrderId"
		inv := calls(p.Evs, "BitwiseNotBytes")
		// the price is inverted before it is used
		done := len(inv) == 0
		for _, ev := range p.Evs {
			done = done || len(inv) > 0 && ev == inv[0]
			if ev.Kind == "copy" && isT(ev.Args[1], "PriceToBytes(A3)") {
				ob(p, fn, done, "uses the price before it is inverted")
			}
		}
		if !p.Holds("!A2") {
			continue
		}
		var at []string
		for _, ev := range p.Evs {
			if ev.Kind == "copy" {
				for i, w := range []string{"sub(Uint32ToBytes(A1), 1, nil)", "PriceToBytes(A3)", "sub(Uint64ToBytes(GetTimestampInt64(A0)), 3, nil)", "sub(Uint32ToBytes(NewAndSaveOrderSerialNo(A0, _)), 1, nil)"} {
					if isT(ev.Args[1], w) && ev.Args[0].Op == "slice" {
						lo := ev.Args[0].Args[1]
						if isNilT(lo) {
							lo = kInt(0)
						}
						at = append(at, itoa(i)+"@"+lo.String())
					}
				}
			}
			ob(p, fn, ev.Kind != "store" || isZero(ev.Args[1]), "sets a byte of a buyer's id")
		}
		sort.Strings(at)
		ob(p, fn, strings.Join(at, " ") == "0@0 1@4 2@14 3@19", "composes the id of %v", at)
	}
	// order ids: market, side, price (inverted for buyers), time, serial number
	for _, p := range paths("BitwiseNotBytes", "") {
		ls := p.loopsOver("A0")
		ok := len(ls) == 1 && ls[0].full
		for _, l := range ls {
			for _, it := range l.ev.Loop.Iters {
				n := 0
				for _, ev := range p.iterPath(l.ev, it, l.idx).Evs {
					if ev.Kind == "store" && ev.Args[0].Op == "ia" && ev.Args[0].Args[1] == l.idx && isT(ev.Args[0].Args[0], "A0") {
						n++
						u := ev.Args[1]
						t := u.String()
						ok = ok && strings.Contains(t, "A0[") && (strings.HasPrefix(u.Op, "un") && strings.Contains(t, "^(") || strings.Contains(t, "^") && strings.Contains(t, "255") || strings.Contains(t, "255-") || strings.Contains(t, "255 - "))
					}
				}
				ok = ok && n == 1
			}
		}
		ob(p, "BitwiseNotBytes", ok, "does not invert every byte")
	}
}

// dexSettle: what a match or a cancelled order did to accounts and fees is
// handed to the fund contract completely and in an order every node computes.
func (c *Ctx) dexSettle() {
	ob := func(p *Path, fn string, ok bool, f string, args ...interface{}) {
		c.Ob(ok, "settlement", fn, p.where(), "%s: %s", fmt.Sprintf(f, args...), p.Describe())
	}
	run := func(fn, opaque string) []*Path {
		f := c.Func(ctPkg, fn)
		if f == nil {
			return nil
		}
		ps := c.all(c.Paths(c.Opts([]string{ctPkg, dexPkg}, strings.Fields(opaque)...), f))
		c.Ob(len(ps) > 0, "settlement", fn, c.where(f), "no path returns")
		return ps
	}
	// the block sent to the fund contract; returns the object it carries
	sent := func(p *Path, fn, from string) (*Term, *State) {
		var obj *Term
		var st *State
		segs := p.segs(stripConv(p.o.res[0]))
		if len(segs) != 1 || segs[0].Loop != nil {
			ob(p, fn, false, "sends %d blocks", len(segs))
			return nil, nil
		}
		b := stripConv(segs[0].T)
		ld := func(n string) *Term { return p.o.st.load(mkFA(b, n, nil2)) }
		m := "\"DexFundSettleOrders\""
		if p.Holds("IsLeafFork(A0)") {
			m = "\"SettleOrders\""
		}
		ob(p, fn, p.Holds("IsLeafFork(A0)") || p.Holds("!IsLeafFork(A0)"), "the settlement method does not depend on the upgrade")
		ok := p.isV(ld("AccountAddress"), from) && p.isV(ld("ToAddress"), "AddressDexFund") && p.isV(ld("BlockType"), "2") && p.isV(ld("Amount"), "0") && p.isV(ld("TokenId"), "ViteTokenId") &&
			p.isV(ld("Data"), "PackMethod(ABIDexFund, "+m+", list(Marshal(_).R0)).R0")
		ob(p, fn, ok, "the block to the fund contract is not a call of %s: %s %s %s %s", m, ld("AccountAddress"), ld("ToAddress"), ld("BlockType"), trunc(ld("Data").String(), 200))
		for _, ev := range calls(p.Evs, "Marshal") {
			obj, st = stripConv(ev.Args[0]), ev.St
		}
		if obj == nil {
			ob(p, fn, false, "nothing is encoded")
			return nil, nil
		}
		if st == nil {
			st = p.o.st
		}
		mi := "A4"
		if fn == "OnPlaceOrderFailed" {
			mi = "A2"
		}
		for _, t := range []string{"TradeToken", "QuoteToken"} {
			v := st.load(mkFA(obj, t, nil2))
			ob(p, fn, p.isV(v, mi+".MarketInfo."+t), "%s is %s", t, v)
		}
		return obj, st
	}
	// a list made of one entry per map key, then sorted
	whole := func(p *Path, evs []*Event, v *Term, m func(*Term) bool, sorter string, entry func(it *Path, el *Term) bool) bool {
		for i, ev := range evs {
			if ev.Kind != "loop" || p.ranged(ev) == nil || !m(p.ranged(ev)) {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if ph.Iter != v || len(ph.Next) == 0 {
					continue
				}
				ok := len(p.segs(ph.Init)) == 0 && len(ev.Loop.Iters) == len(ph.Next)
				for k, n := range ph.Next {
					it := p.iterPath(ev, ev.Loop.Iters[k], nil)
					ok = ok && n.Op == "append" && len(n.Args) == 2 && n.Args[0] == v && entry(it, stripConv(n.Args[1]))
				}
				sorted := false
				for _, s := range evs[i+1:] {
					if s.Kind == "call" && baseName(s.Name) == "Sort" && len(s.Args) == 1 && isT(s.Args[0], "as("+sorter+", X)") {
						b, _ := matchT(pat("as("+sorter+", X)"), s.Args[0], Bind{})
						sorted = sorted || stripConv(b["X"]) == v
					}
				}
				return ok && sorted
			}
		}
		return false
	}
	for _, p := range run("handleSettleActions", "Sort PackMethod IsLeafFork") {
		const fn = "handleSettleActions"
		if p.Holds("len(A2) == 0") && p.Holds("len(A3) == 0") {
			ob(p, fn, isNilT(p.o.res[0]) && isNilT(p.o.res[1]), "sends something although there is nothing to settle")
			continue
		}
		o, st := sent(p, fn, "A1.AccountAddress")
		if o == nil {
			continue
		}
		fa := st.load(mkFA(o, "FundActions", nil2))
		if p.Holds("len(A2) == 0") || p.Holds("len(A2) <= 0") {
			ob(p, fn, isT(fa, "ZERO") || len(p.segs(fa)) == 0, "settles accounts nobody asked for")
		} else {
			ok := whole(p, p.Evs, stripConv(fa), func(t *Term) bool { return isT(t, "A2") }, "FundSettleSorter", func(it *Path, el *Term) bool {
				if !it.isV(it.o.st.load(mkFA(el, "Address", nil2)), "bytes rkey(A2)") {
					return false
				}
				return whole(it, it.Evs, stripConv(it.o.st.load(mkFA(el, "AccountSettles", nil2))), func(t *Term) bool { return isT(t, "rval(A2)") }, "AccountSettleSorter", func(in *Path, el *Term) bool {
					return isT(el, "rval(rval(A2))")
				})
			})
			ob(p, fn, ok, "the account settlements are not every account's changes, sorted")
		}
		fe := st.load(mkFA(o, "FeeActions", nil2))
		if p.Holds("len(A3) == 0") || p.Holds("len(A3) <= 0") {
			ob(p, fn, isT(fe, "ZERO") || len(p.segs(fe)) == 0, "settles fees nobody paid")
		} else {
			ok := whole(p, p.Evs, stripConv(fe), func(t *Term) bool { return isT(t, "A3") }, "FeeSettleSorter", func(it *Path, el *Term) bool { return isT(el, "rval(A3)") })
			ob(p, fn, ok, "the fee settlements are not every fee, sorted")
		}
	}
	for _, p := range run("OnPlaceOrderFailed", "PackMethod IsLeafFork") {
		const fn = "OnPlaceOrderFailed"
		o, st := sent(p, fn, "AddressDexTrade")
		if o == nil {
			continue
		}
		one := func(list *Term) *Term {
			if ss := p.segs(list); len(ss) == 1 && ss[0].Loop == nil {
				return stripConv(ss[0].T)
			}
			return nil
		}
		fs := one(st.load(mkFA(o, "FundActions", nil2)))
		if fs == nil {
			ob(p, fn, false, "not one account is refunded")
			continue
		}
		ob(p, fn, p.isV(st.load(mkFA(fs, "Address", nil2)), "A1.Order.Address"), "refunds somebody else")
		as := one(st.load(mkFA(fs, "AccountSettles", nil2)))
		if as == nil {
			ob(p, fn, false, "not one token is refunded")
			continue
		}
		it, rl := st.load(mkFA(as, "IsTradeToken", nil2)), st.load(mkFA(as, "ReleaseLocked", nil2))
		for _, f := range []string{"IncAvailable", "ReduceLocked"} {
			v := st.load(mkFA(as, f, nil2))
			ob(p, fn, isT(v, "ZERO"), "%s is %s", f, v)
		}
		if p.Holds("A1.Order.Side") {
			ob(p, fn, p.isV(it, "true") && p.isV(rl, "A1.Order.Quantity"), "a seller gets back %s", trunc(rl.String(), 200))
		} else {
			ob(p, fn, p.Holds("!A1.Order.Side") && (p.isV(it, "false") || isT(it, "ZERO")) && p.isV(rl, "Bytes(SetBytes(A1.Order.Amount) + SetBytes(A1.Order.LockedBuyFee))"), "a buyer gets back %s", trunc(rl.String(), 200))
		}
	}
}

// seen: the terms with an operator that the path mentions.
func (p *Path) seen(op string) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || done[t] {
			return
		}
		done[t] = true
		if t.Op == op {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, f := range p.F {
		walk(f.A)
		walk(f.B)
	}
	walkEvents(p.Evs, func(ev *Event) {
		for _, a := range ev.Args {
			walk(a)
		}
	})
	for _, r := range p.o.res {
		walk(r)
	}
	return out
}
