//go:build verif_contracts

package contracts

// C16: packed span connections and the direction tables.

//@ package recast

//@ opfn conBits(c uint32, d int32) int32 = int32((c >> (uint32(6) * uint32(d))) & uint32(63))

//@ func recast.SetCon
//@ property C16
//@ mode bv
//@ use conBits
//@ requires s != nil && int32(0) <= dir && dir < int32(4)
//@ ensures int32(0) <= i && i <= int32(63) ==> GetCon(s, dir) == i
//@ ensures forall d int32 :: int32(0) <= d && d < int32(4) && d != dir ==> GetCon(s, d) == old(GetCon(s, d))
//@ ensures s.Con >> uint32(24) == old(s.Con) >> uint32(24)
//@ ensures int32(0) <= i && i <= int32(63) ==> conBits(s.Con, dir) == i
//@ ensures forall d int32 :: {conBits(s.Con, d)} int32(0) <= d && d < int32(4) && d != dir ==> conBits(s.Con, d) == conBits(old(s.Con), d)
//@ modifies s.Con

//@ func recast.GetCon
//@ property C16
//@ mode bv
//@ use conBits
//@ ensures result == conBits(s.Con, dir)
//@ requires s != nil && int32(0) <= dir && dir < int32(4)
//@ ensures int32(0) <= result && result <= int32(63)
//@ ensures result == int32((s.Con >> (uint32(6) * uint32(dir))) & uint32(63))
//@ modifies nothing

// The direction tables, as init() sets them; nothing else assigns them.
//@ globinv dirTables: xOffset[0] == int32(0) - int32(1) && xOffset[1] == int32(0) && xOffset[2] == int32(1) && xOffset[3] == int32(0)
//@   && yOffset[0] == int32(0) && yOffset[1] == int32(1) && yOffset[2] == int32(0) && yOffset[3] == int32(0) - int32(1)
//@   && dirOffset[0] == int32(3) && dirOffset[1] == int32(0) && dirOffset[3] == int32(2) && dirOffset[4] == int32(1)
//@ property C16

//@ fn dirX(d int32) int32 = (d & int32(3)) == int32(0) ? int32(0) - int32(1) : ((d & int32(3)) == int32(2) ? int32(1) : int32(0))
//@ fn dirY(d int32) int32 = (d & int32(3)) == int32(3) ? int32(0) - int32(1) : ((d & int32(3)) == int32(1) ? int32(1) : int32(0))

//@ func recast.GetDirOffsetX
//@ property C16
//@ use dirTables
//@ ensures result == dirX(dir)
//@ modifies nothing

//@ func recast.GetDirOffsetY
//@ property C16
//@ use dirTables
//@ ensures result == dirY(dir)
//@ modifies nothing

//@ func recast.GetDirForOffset
//@ property C16
//@ use dirTables
//@ requires (x == int32(0) - int32(1) || x == int32(0) || x == int32(1)) && (y == int32(0) - int32(1) || y == int32(0) || y == int32(1)) && (x == int32(0)) != (y == int32(0))
//@ ensures int32(0) <= result && result <= int32(3) && dirX(result) == x && dirY(result) == y
//@ modifies nothing

// four distinct unit steps, opposite directions cancel
//@ lemma dirsDistinctUnit(a int32, b int32)
//@ property C16
//@ requires int32(0) <= a && a < int32(4) && int32(0) <= b && b < int32(4)
//@ ensures dirX(a) * dirX(a) + dirY(a) * dirY(a) == int32(1)
//@ ensures a != b ==> dirX(a) != dirX(b) || dirY(a) != dirY(b)
//@ ensures b == (a + int32(2)) & int32(3) ==> dirX(a) + dirX(b) == int32(0) && dirY(a) + dirY(b) == int32(0)
