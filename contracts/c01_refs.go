//go:build verif_contracts

package contracts

// C01: polygon and tile references. Bit-vector semantics throughout.

//@ package detour

// Every split NavMesh.Init accepts (proved there): at least 10 salt bits, all
// fields together at most 32 bits.
//@ pred splitOK(m *NavMesh) = m.polyBits <= 31 && m.tileBits <= 31 && m.saltBits >= 1 && m.saltBits <= 31 && m.polyBits + m.tileBits + m.saltBits <= 32
//@ pred inBits(v uint32, bits uint32) = v < uint32(1) << bits
//@ fn refSalt(m *NavMesh, r PolyRef) uint32 = uint32((r >> (m.polyBits + m.tileBits)) & ((PolyRef(1) << m.saltBits) - PolyRef(1)))
//@ fn refTile(m *NavMesh, r PolyRef) uint32 = uint32((r >> m.polyBits) & ((PolyRef(1) << m.tileBits) - PolyRef(1)))
//@ fn refPoly(m *NavMesh, r PolyRef) uint32 = uint32(r & ((PolyRef(1) << m.polyBits) - PolyRef(1)))

//@ func detour.(*NavMesh).encodePolyID
//@ property C01
//@ mode bv
//@ requires m != nil
//@ ensures splitOK(m) && inBits(salt, m.saltBits) && inBits(it, m.tileBits) && inBits(ip, m.polyBits) ==> refSalt(m, result) == salt && refTile(m, result) == it && refPoly(m, result) == ip
//@ ensures splitOK(m) && inBits(salt, m.saltBits) && inBits(it, m.tileBits) && inBits(ip, m.polyBits) ==> result == (PolyRef(salt) << (m.polyBits + m.tileBits)) | (PolyRef(it) << m.polyBits) | PolyRef(ip)
//@ modifies nothing

//@ func detour.(*NavMesh).decodePolyIDTile
//@ property C01
//@ mode bv
//@ requires m != nil
//@ ensures splitOK(m) ==> result == refTile(m, ref)
//@ modifies nothing

//@ func detour.(*NavMesh).decodePolyIDSalt
//@ property C01
//@ mode bv
//@ requires m != nil
//@ ensures splitOK(m) ==> result == refSalt(m, ref)
//@ modifies nothing

//@ func detour.(*NavMesh).decodePolyIDPoly
//@ property C01
//@ mode bv
//@ requires m != nil
//@ ensures splitOK(m) ==> result == refPoly(m, ref)
//@ modifies nothing

//@ func detour.(*NavMesh).DecodePolyID
//@ property C01
//@ mode bv
//@ requires m != nil && salt != nil && it != nil && ip != nil
//@ requires salt != it && salt != ip && it != ip
//@ ensures splitOK(m) ==> *salt == refSalt(m, ref) && *it == refTile(m, ref) && *ip == refPoly(m, ref)
//@ modifies *salt, *it, *ip

// Two references agree only if all three numbers agree (no two live polygons
// share a reference), and fields are always in range.
//@ lemma refInjective(m *NavMesh, a PolyRef, b PolyRef)
//@ property C01
//@ mode bv
//@ requires m != nil && splitOK(m) && m.polyBits + m.tileBits + m.saltBits == 32
//@ requires refSalt(m, a) == refSalt(m, b) && refTile(m, a) == refTile(m, b) && refPoly(m, a) == refPoly(m, b)
//@ ensures a == b

//@ lemma refFieldsInRange(m *NavMesh, a PolyRef)
//@ property C01
//@ mode bv
//@ requires m != nil && splitOK(m)
//@ ensures inBits(refSalt(m, a), m.saltBits) && inBits(refTile(m, a), m.tileBits) && inBits(refPoly(m, a), m.polyBits)

// the base reference of a tile, and base|i for the tile's i-th polygon
//@ lemma refBaseOr(m *NavMesh, salt uint32, it uint32, ip uint32)
//@ property C01
//@ mode bv
//@ requires m != nil && splitOK(m) && inBits(salt, m.saltBits) && inBits(it, m.tileBits) && inBits(ip, m.polyBits)
//@ ensures ((PolyRef(salt) << (m.polyBits + m.tileBits)) | (PolyRef(it) << m.polyBits)) | PolyRef(ip) == (PolyRef(salt) << (m.polyBits + m.tileBits)) | (PolyRef(it) << m.polyBits) | PolyRef(ip)
//@ ensures refSalt(m, ((PolyRef(salt) << (m.polyBits + m.tileBits)) | (PolyRef(it) << m.polyBits)) | PolyRef(ip)) == salt

//@ func detour.(*NavMesh).TileRef
//@ property C01
//@ mode bv
//@ gparam k int
//@ requires m != nil && splitOK(m) && 0 <= k && k < len(m.Tiles) && (tile == nil || tile == &m.Tiles[k])
//@ requires k < int(1) << m.tileBits && (tile == nil || inBits(tile.Salt, m.saltBits))
//@ ensures tile == nil ==> result == TileRef(0)
//@ ensures tile != nil ==> refTile(m, PolyRef(result)) == uint32(k) && refSalt(m, PolyRef(result)) == tile.Salt && refPoly(m, PolyRef(result)) == uint32(0)
//@ modifies nothing

//@ func detour.(*NavMesh).polyRefBase
//@ property C01
//@ mode bv
//@ gparam k int
//@ requires m != nil && splitOK(m) && 0 <= k && k < len(m.Tiles) && (tile == nil || tile == &m.Tiles[k])
//@ requires k < int(1) << m.tileBits && (tile == nil || inBits(tile.Salt, m.saltBits))
//@ ensures tile == nil ==> result == PolyRef(0)
//@ ensures tile != nil ==> refTile(m, result) == uint32(k) && refSalt(m, result) == tile.Salt && refPoly(m, result) == uint32(0)
//@ modifies nothing

//@ func detour.(*NavMesh).TileByRef
//@ property C02
//@ mode bv
//@ requires m != nil && splitOK(m) && meshShape(m)
//@ ensures result != nil <==> ref != TileRef(0) && refTile(m, PolyRef(ref)) < uint32(m.MaxTiles) && m.Tiles[int(refTile(m, PolyRef(ref)))].Salt == refSalt(m, PolyRef(ref))
//@ ensures result != nil ==> result == &m.Tiles[int(refTile(m, PolyRef(ref)))]
//@ modifies nothing

// C02: stale and foreign references.
//@ pred meshShape(m *NavMesh) = m.MaxTiles >= int32(0) && len(m.Tiles) == int(m.MaxTiles)
//@ pred liveRef(m *NavMesh, r PolyRef) = r != PolyRef(0) && refTile(m, r) < uint32(m.MaxTiles) && m.Tiles[int(refTile(m, r))].Salt == refSalt(m, r) && m.Tiles[int(refTile(m, r))].Header != nil && refPoly(m, r) < uint32(m.Tiles[int(refTile(m, r))].Header.PolyCount)
//@ pred tilesLoaded(m *NavMesh) = forall i int :: 0 <= i && i < len(m.Tiles) && m.Tiles[i].Header != nil ==> m.Tiles[i].Header.PolyCount >= int32(0) && int(m.Tiles[i].Header.PolyCount) <= len(m.Tiles[i].Polys)

//@ func detour.(*NavMesh).IsValidPolyRef
//@ property C02
//@ mode bv
//@ requires m != nil && splitOK(m) && meshShape(m)
//@ ensures result <==> liveRef(m, ref)
//@ modifies nothing

//@ func detour.(*NavMesh).TileAndPolyByRef
//@ property C02
//@ mode bv
//@ requires m != nil && splitOK(m) && meshShape(m) && tilesLoaded(m) && tile != nil && poly != nil
//@ ensures liveRef(m, ref) ==> result == Success && *tile == &m.Tiles[int(refTile(m, ref))] && *poly == &m.Tiles[int(refTile(m, ref))].Polys[int(refPoly(m, ref))]
//@ ensures !liveRef(m, ref) ==> StatusFailed(result) && *tile == old(*tile) && *poly == old(*poly)
//@ modifies *tile, *poly
