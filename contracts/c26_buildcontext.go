//go:build verif_contracts

package contracts

// C26: build log and timers.

//@ package recast

//@ pred ctxOK(c *BuildContext) = c != nil && 0 <= c.numMessages && c.numMessages <= maxMessages

//@ func recast.NewBuildContext
//@ property C26
//@ ensures fresh(result) && ctxOK(result) && result.numMessages == 0 && result.logEnabled == state && result.timerEnabled == state
//@ ensures forall k int :: 0 <= k && k < maxTimers ==> result.accTime[k] == 0
//@ modifies nothing

//@ func recast.(*BuildContext).EnableLog
//@ property C26
//@ requires ctx != nil
//@ ensures ctx.logEnabled == state
//@ modifies ctx.logEnabled

//@ func recast.(*BuildContext).EnableTimer
//@ property C26
//@ requires ctx != nil
//@ ensures ctx.timerEnabled == state
//@ modifies ctx.timerEnabled

//@ func recast.(*BuildContext).ResetLog
//@ property C26
//@ requires ctxOK(ctx)
//@ ensures ctx.numMessages == (ctx.logEnabled ? 0 : old(ctx.numMessages))
//@ modifies ctx.numMessages

//@ func recast.(*BuildContext).log
//@ property C26
//@ requires ctxOK(ctx) && logProgress <= category && category <= logError
//@ ghost text string
//@ hook Sprintf after ghost text = $res
//@ ensures ctx.numMessages == old(ctx.numMessages) + (ctx.logEnabled && old(ctx.numMessages) < maxMessages ? 1 : 0) && ctxOK(ctx)
//@ ensures forall k int :: {ctx.messages[k]} 0 <= k && k < old(ctx.numMessages) ==> ctx.messages[k] == old(ctx.messages[k])
//@ ensures ctx.logEnabled && old(ctx.numMessages) < maxMessages && category == logProgress ==> ctx.messages[old(ctx.numMessages)] == "PROG " + text
//@ ensures ctx.logEnabled && old(ctx.numMessages) < maxMessages && category == logWarning ==> ctx.messages[old(ctx.numMessages)] == "WARN " + text
//@ ensures ctx.logEnabled && old(ctx.numMessages) < maxMessages && category == logError ==> ctx.messages[old(ctx.numMessages)] == "ERR " + text
//@ modifies ctx.numMessages, ctx.messages[*]

//@ func recast.(*BuildContext).Progressf
//@ property C26
//@ requires ctxOK(ctx)
//@ ensures ctx.numMessages == old(ctx.numMessages) + (ctx.logEnabled && old(ctx.numMessages) < maxMessages ? 1 : 0) && ctxOK(ctx)
//@ ensures forall k int :: {ctx.messages[k]} 0 <= k && k < old(ctx.numMessages) ==> ctx.messages[k] == old(ctx.messages[k])
//@ modifies ctx.numMessages, ctx.messages[*]

//@ func recast.(*BuildContext).Warningf
//@ property C26
//@ requires ctxOK(ctx)
//@ ensures ctx.numMessages == old(ctx.numMessages) + (ctx.logEnabled && old(ctx.numMessages) < maxMessages ? 1 : 0) && ctxOK(ctx)
//@ ensures forall k int :: {ctx.messages[k]} 0 <= k && k < old(ctx.numMessages) ==> ctx.messages[k] == old(ctx.messages[k])
//@ modifies ctx.numMessages, ctx.messages[*]

//@ func recast.(*BuildContext).Errorf
//@ property C26
//@ requires ctxOK(ctx)
//@ ensures ctx.numMessages == old(ctx.numMessages) + (ctx.logEnabled && old(ctx.numMessages) < maxMessages ? 1 : 0) && ctxOK(ctx)
//@ ensures forall k int :: {ctx.messages[k]} 0 <= k && k < old(ctx.numMessages) ==> ctx.messages[k] == old(ctx.messages[k])
//@ modifies ctx.numMessages, ctx.messages[*]

//@ func recast.(*BuildContext).LogCount
//@ property C26
//@ requires ctxOK(ctx)
//@ ensures result == ctx.numMessages
//@ modifies nothing

//@ func recast.(*BuildContext).LogText
//@ property C26
//@ requires ctxOK(ctx) && 0 <= i && i < ctx.numMessages
//@ ensures result == ctx.messages[i]
//@ modifies nothing

//@ func recast.(*BuildContext).DumpLog
//@ property C26
//@ requires ctxOK(ctx)
//@ modifies nothing
//@ ghost lines int = 0
//@ hook Fprintln after ghost lines = lines + 1
//@ ensures lines == ctx.numMessages
//@ loop 1
//@ invariant 0 <= i && i <= ctx.numMessages && lines == i

//@ func recast.(*BuildContext).ResetTimers
//@ property C26
//@ requires ctx != nil
//@ ensures ctx.timerEnabled ==> forall k int :: {ctx.accTime[k]} 0 <= k && k < maxTimers ==> ctx.accTime[k] == 0
//@ ensures !ctx.timerEnabled ==> forall k int :: {ctx.accTime[k]} 0 <= k && k < maxTimers ==> ctx.accTime[k] == old(ctx.accTime[k])
//@ modifies ctx.accTime[*]
//@ loop 1
//@ invariant 0 <= i && i <= maxTimers && ctx.timerEnabled
//@ invariant forall k int :: {ctx.accTime[k]} 0 <= k && k < i ==> ctx.accTime[k] == 0

//@ func recast.(*BuildContext).StartTimer
//@ property C26
//@ requires ctx != nil && 0 <= label && label < maxTimers
//@ modifies ctx.startTime[label]

//@ func recast.(*BuildContext).StopTimer
//@ property C26
//@ overflow wrap
//@ requires ctx != nil && 0 <= label && label < maxTimers
//@ ghost took int64
//@ hook Since after ghost took = int64($res)
//@ ensures ctx.timerEnabled && abs(old(int(ctx.accTime[label]))) < 1152921504606846976 && abs(int(took)) < 1152921504606846976 ==> int(ctx.accTime[label]) == old(int(ctx.accTime[label])) + int(took)
//@ ensures !ctx.timerEnabled ==> ctx.accTime[label] == old(ctx.accTime[label])
//@ modifies ctx.accTime[label]

//@ func recast.(*BuildContext).AccumulatedTime
//@ property C26
//@ requires ctx != nil && 0 <= label && label < maxTimers
//@ ensures result == (ctx.timerEnabled ? ctx.accTime[label] : 0)
//@ modifies nothing
