//go:build verif_contracts

package contracts

// C23: convex volumes of the input geometry. volKept(a, b): entry a now holds
// what entry b held at entry.

//@ package recast

//@ func recast.(*InputGeom).AddConvexVolume
//@ property C23
//@ requires ig != nil && 0 <= ig.volumeCount && ig.volumeCount <= 256
//@ requires len(verts) % 3 == 0 && len(verts) <= 36
//@ requires root(verts) != root(ig)
//@ ensures old(ig.volumeCount) >= 256 ==> ig.volumeCount == old(ig.volumeCount)
//@ ensures old(ig.volumeCount) < 256 ==> ig.volumeCount == old(ig.volumeCount) + 1 && ig.volumes[old(ig.volumeCount)].NVerts*3 == len(verts) && ig.volumes[old(ig.volumeCount)].Area == area
//@ ensures old(ig.volumeCount) < 256 ==> ig.volumes[old(ig.volumeCount)].HMin == minh && ig.volumes[old(ig.volumeCount)].HMax == maxh
//@ ensures old(ig.volumeCount) < 256 ==> (forall c int :: {ig.volumes[old(ig.volumeCount)].Verts[c]} 0 <= c && c < len(verts) ==> ig.volumes[old(ig.volumeCount)].Verts[c] == old(verts[c]))
//@ ensures forall k int, c int :: {ig.volumes[k].Verts[c]} 0 <= k && k < 256 && 0 <= c && c < 36 && (k != old(ig.volumeCount)) ==> ig.volumes[k].Verts[c] == old(ig.volumes[k].Verts[c])
//@ ensures forall k int :: {ig.volumes[k].NVerts} 0 <= k && k < 256 && k != old(ig.volumeCount) ==> ig.volumes[k].NVerts == old(ig.volumes[k].NVerts)
//@ ensures forall k int :: {ig.volumes[k].Area} 0 <= k && k < 256 && k != old(ig.volumeCount) ==> ig.volumes[k].Area == old(ig.volumes[k].Area)
//@ ensures forall k int :: {ig.volumes[k].HMin} 0 <= k && k < 256 && k != old(ig.volumeCount) ==> ig.volumes[k].HMin == old(ig.volumes[k].HMin)
//@ ensures forall k int :: {ig.volumes[k].HMax} 0 <= k && k < 256 && k != old(ig.volumeCount) ==> ig.volumes[k].HMax == old(ig.volumes[k].HMax)
//@ modifies ig.volumeCount, ConvexVolume.NVerts, ConvexVolume.Area, ConvexVolume.HMin, ConvexVolume.HMax, heapof(float32)

//@ func recast.(*InputGeom).DeleteConvexVolume
//@ property C23
//@ requires ig != nil && 0 <= i && i < ig.volumeCount && ig.volumeCount <= 256
//@ ensures ig.volumeCount == old(ig.volumeCount) - 1
//@ ensures forall k int :: {ig.volumes[k].NVerts} 0 <= k && k < 256 ==> ig.volumes[k].NVerts == old(ig.volumes[k == i ? ig.volumeCount-1 : k].NVerts)
//@ ensures forall k int :: {ig.volumes[k].Area} 0 <= k && k < 256 ==> ig.volumes[k].Area == old(ig.volumes[k == i ? ig.volumeCount-1 : k].Area)
//@ ensures forall k int :: {ig.volumes[k].HMin} 0 <= k && k < 256 ==> ig.volumes[k].HMin == old(ig.volumes[k == i ? ig.volumeCount-1 : k].HMin)
//@ ensures forall k int :: {ig.volumes[k].HMax} 0 <= k && k < 256 ==> ig.volumes[k].HMax == old(ig.volumes[k == i ? ig.volumeCount-1 : k].HMax)
//@ ensures forall k int, c int :: {ig.volumes[k].Verts[c]} 0 <= k && k < 256 && 0 <= c && c < 36 ==> ig.volumes[k].Verts[c] == old(ig.volumes[k == i ? ig.volumeCount-1 : k].Verts[c])
//@ modifies ig.volumeCount, ConvexVolume.NVerts, ConvexVolume.Area, ConvexVolume.HMin, ConvexVolume.HMax, heapof(float32)

//@ func recast.(*InputGeom).ConvexVolumesCount
//@ property C23
//@ requires ig != nil
//@ ensures result == ig.volumeCount
//@ modifies nothing
