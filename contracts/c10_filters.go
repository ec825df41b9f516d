//go:build verif_contracts

package contracts

// C10: query filters and the packed area/type byte.

//@ package detour

//@ func detour.(*Poly).SetArea
//@ property C10
//@ mode bv
//@ requires p != nil
//@ ensures a < uint8(64) ==> p.Area() == a
//@ ensures p.Type() == old(p.Type())
//@ modifies p.AreaAndType

//@ func detour.(*Poly).SetType
//@ property C10
//@ mode bv
//@ requires p != nil
//@ ensures t < uint8(4) ==> p.Type() == t
//@ ensures p.Area() == old(p.Area())
//@ modifies p.AreaAndType

//@ func detour.(*Poly).Area
//@ property C10
//@ mode bv
//@ requires p != nil
//@ ensures result < uint8(64) && result == p.AreaAndType & uint8(63)
//@ modifies nothing

//@ func detour.(*Poly).Type
//@ property C10
//@ mode bv
//@ requires p != nil
//@ ensures result < uint8(4) && result == p.AreaAndType >> uint8(6)
//@ modifies nothing

//@ func detour.(*StandardQueryFilter).PassFilter
//@ property C10
//@ mode bv
//@ requires qf != nil && poly != nil
//@ ensures result <==> (poly.Flags & qf.includeFlags) != uint16(0) && (poly.Flags & qf.excludeFlags) == uint16(0)
//@ modifies nothing

//@ func detour.(*StandardQueryFilter).Cost
//@ property C10
//@ requires qf != nil && curPoly != nil && len(pa) >= 3 && len(pb) >= 3
//@ ensures result == pa.Dist(pb) * qf.areaCost[curPoly.Area()]
//@ modifies nothing

//@ func detour.(*StandardQueryFilter).SetAreaCost
//@ property C10
//@ requires qf != nil && 0 <= i && i < 64
//@ ensures qf.areaCost[i] == cost
//@ modifies qf.areaCost[i]

//@ func detour.(*StandardQueryFilter).AreaCost
//@ property C10
//@ requires qf != nil && 0 <= i && i < 64
//@ ensures result == qf.areaCost[i]
//@ modifies nothing

//@ func detour.(*StandardQueryFilter).SetIncludeFlags
//@ property C10
//@ requires qf != nil
//@ ensures qf.IncludeFlags() == flags
//@ modifies qf.includeFlags

//@ func detour.(*StandardQueryFilter).SetExcludeFlags
//@ property C10
//@ requires qf != nil
//@ ensures qf.ExcludeFlags() == flags
//@ modifies qf.excludeFlags

//@ func detour.NewStandardQueryFilter
//@ property C10
//@ floats fp
//@ ensures result != nil && fresh(result) && result.includeFlags == 65535 && result.excludeFlags == 0
//@ ensures forall k int :: 0 <= k && k < 64 ==> result.areaCost[k] == 1.0
//@ modifies nothing
