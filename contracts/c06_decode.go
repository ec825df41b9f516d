//go:build verif_contracts

package contracts

// C06: malformed mesh files are refused, never half-read.
//
// Decode is verified against the contracts of Init and AddTile; binary.Read is
// modelled as writing arbitrary bytes into the structure it is given and
// returning any error, io.ReadFull by its documented contract, so the argument
// covers every stream and every way of splitting it into reads.

//@ package io
//@ func io.ReadFull
//@ trusted its documented contract: err == nil exactly when all of buf was filled; only buf is written
//@ requires r != nil
//@ ensures 0 <= result0 && result0 <= len(buf)
//@ ensures result1 == nil ==> result0 == len(buf)
//@ modifies buf[*]

//@ package detour
//@ func detour.Decode
//@ property C06
//@ variant sized
//@ requires r != nil
//@ ghost read int = 0
//@ ghost full int = 0
//@ ghost added int = 0
//@ ghost inits int = 0
//@ ghost built *NavMesh
// the first structure read is the file header, and nothing is built before it was accepted
//@ hook Read after ghost read = read + 1
//@ hook Init before assert read == 1 && hdr.Magic == navMeshSetMagic && hdr.Version == navMeshSetVersion
//@ hook Init after ghost built = &mesh
//@ hook Init after ghost inits = inits + (StatusFailed($res) ? 0 : 1)
//@ loop 1
//@ invariant built == &mesh && inits == 1 && read == int(i) + 1 && full == int(i) && added == int(i) && int(i) <= int(hdr.NumTiles) && hdr.Magic == navMeshSetMagic && hdr.Version == navMeshSetVersion
//@ invariant 0 <= mesh.TileLUTMask && allSized(&mesh)
//@ decreases int(hdr.NumTiles) - int(i)
//@ hook ReadFull before assert read == int(i) + 2 && len(data) == int(tileHdr.DataSize) && tileHdr.DataSize > 0 && tileHdr.TileRef != TileRef(0)
//@ hook ReadFull after ghost full = full + ($res1 == nil ? 1 : 0)
//@ hook AddTile before assert full == int(i) + 1 && len(data) == int(tileHdr.DataSize)
//@ hook AddTile after ghost added = added + ($res0 & Failure == Status(0) ? 1 : 0)
//@ exitassert result1 == nil ==> result0 == built
//@ exitassert result1 == nil ==> hdr.Magic == navMeshSetMagic && hdr.Version == navMeshSetVersion
//@ exitassert result1 == nil ==> inits == 1 && full == int(hdr.NumTiles) && added == full && read == full + 1
//@ ensures result1 != nil ==> result0 == nil
//@ ensures result1 == nil ==> result0 != nil && fresh(result0) && allSized(result0)
//@ modifies *
