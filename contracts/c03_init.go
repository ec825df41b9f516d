//go:build verif_contracts

package contracts

// C03: navigation mesh initialisation.

//@ package math32

//@ opfn pow2(n int) int = n == 0 ? 1 : n == 1 ? 2 : n == 2 ? 4 : n == 3 ? 8 : n == 4 ? 16 : n == 5 ? 32 : n == 6 ? 64 : n == 7 ? 128 : n == 8 ? 256 : n == 9 ? 512 : n == 10 ? 1024 : n == 11 ? 2048 : n == 12 ? 4096 : n == 13 ? 8192 : n == 14 ? 16384 : n == 15 ? 32768 : n == 16 ? 65536 : n == 17 ? 131072 : n == 18 ? 262144 : n == 19 ? 524288 : n == 20 ? 1048576 : n == 21 ? 2097152 : n == 22 ? 4194304 : n == 23 ? 8388608 : n == 24 ? 16777216 : n == 25 ? 33554432 : n == 26 ? 67108864 : n == 27 ? 134217728 : n == 28 ? 268435456 : n == 29 ? 536870912 : n == 30 ? 1073741824 : 2147483648

//@ lemma pow2Grows(a int, b int)
//@ property C03
//@ use pow2
//@ requires 0 <= a && a < b && b <= 31
//@ ensures 1 <= pow2(a) && 2*pow2(a) <= pow2(b) && pow2(b) <= 2147483648
//@ trigger pow2(a), pow2(b)
//@ fn isPow2(v int) bool = v == pow2(0) || v == pow2(1) || v == pow2(2) || v == pow2(3) || v == pow2(4) || v == pow2(5) || v == pow2(6) || v == pow2(7) || v == pow2(8) || v == pow2(9) || v == pow2(10) || v == pow2(11) || v == pow2(12) || v == pow2(13) || v == pow2(14) || v == pow2(15) || v == pow2(16) || v == pow2(17) || v == pow2(18) || v == pow2(19) || v == pow2(20) || v == pow2(21) || v == pow2(22) || v == pow2(23) || v == pow2(24) || v == pow2(25) || v == pow2(26) || v == pow2(27) || v == pow2(28) || v == pow2(29) || v == pow2(30) || v == pow2(31)

//@ func math32.NextPow2
//@ property C03
//@ mode bv
//@ overflow wrap
//@ use pow2
//@ ensures 1 <= v && v <= 2147483648 ==> v <= result && result < 2*int(v) && isPow2(result)
//@ ensures v == 0 ==> result == 0
//@ modifies nothing

//@ func math32.Ilog2
//@ property C03
//@ mode bv
//@ overflow wrap
//@ use pow2
//@ ensures v > 0 ==> result <= 31 && pow2(result) <= v && (result < 31 ==> v < pow2(result+1))
//@ ensures v == 0 ==> result == 0
//@ ensures isPow2(v) ==> pow2(result) == v
//@ modifies nothing

//@ package detour
// b is the number of bits needed to tell n values apart
//@ pred bitsFor(b int, n int) = 0 <= b && b <= 31 && n <= pow2(b) && (0 < b ==> pow2(b-1) < n)

//@ func detour.(*NavMesh).Init
//@ property C03
//@ use pow2Grows
//@ requires m != nil && params != nil
//@ ensures result == Success || result == Failure|InvalidParam
//@ ensures result == Success ==> bitsFor(m.tileBits, params.MaxTiles) && bitsFor(m.polyBits, params.MaxPolys) && m.saltBits >= 8 && m.saltBits == min(31, 32 - m.tileBits - m.polyBits)
//@ ensures result != Success ==> (forall a int, b int :: {pow2(a), pow2(b)} bitsFor(a, params.MaxTiles) && bitsFor(b, params.MaxPolys) ==> a + b > 24)
//@ ensures result == Success ==> m.MaxTiles == params.MaxTiles && len(m.Tiles) == params.MaxTiles && 1 <= m.TileLUTSize && isPow2(m.TileLUTSize) && m.TileLUTMask == m.TileLUTSize-1 && len(m.posLookup) == m.TileLUTSize
//@ ensures result == Success ==> (forall i int :: {m.posLookup[i]} 0 <= i && i < len(m.posLookup) ==> m.posLookup[i] == nil)
//@ ensures result == Success ==> (forall i int :: {m.Tiles[i].Salt} 0 <= i && i < len(m.Tiles) ==> m.Tiles[i].Salt == 1 && m.Tiles[i].Header == nil && len(m.Tiles[i].Polys) == 0 && len(m.Tiles[i].Links) == 0 && m.Tiles[i].Next == (i+1 < len(m.Tiles) ? &m.Tiles[i+1] : nil))
//@ ensures result == Success ==> m.nextFree == (len(m.Tiles) > 0 ? &m.Tiles[0] : nil)
//@ modifies m.Params, m.Orig, m.TileWidth, m.TileHeight, m.MaxTiles, m.TileLUTSize, m.TileLUTMask, m.posLookup, m.nextFree, m.Tiles, m.saltBits, m.tileBits, m.polyBits
//@ loop 1
//@ invariant -1 <= i && i < len(m.Tiles)
//@ invariant m.nextFree == (i+1 < len(m.Tiles) ? &m.Tiles[i+1] : nil)
//@ invariant forall k int :: {m.Tiles[k].Salt} i < k && k < len(m.Tiles) ==> m.Tiles[k].Salt == 1 && m.Tiles[k].Next == (k+1 < len(m.Tiles) ? &m.Tiles[k+1] : nil)
//@ decreases i + 1
