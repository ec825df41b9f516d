//go:build verif_contracts

package contracts

// C09: link storage of a tile. Ghost view: cls[l] is the polygon whose list
// link l is in, -1 when l is on the free list and -2 when it is handed out but
// in no list; ord gives the position inside a polygon's list, ford inside the
// free list (head has the largest). Lists contain every link of their class.

//@ package detour

//@ fn nl() int = 4294967295
//@ pred linkShape(t *MeshTile, cls seq int, np int) = t != nil && 0 <= np && np <= len(t.Polys) && len(t.Links) < 2147483648 && (forall l int :: {cls[l]} 0 <= l && l < len(t.Links) ==> -2 <= cls[l] && cls[l] < np)
//@ pred freeHead(t *MeshTile, cls seq int) = t.LinksFreeList == 4294967295 || (t.LinksFreeList < len(t.Links) && cls[t.LinksFreeList] == -1)
//@ pred freeNext(t *MeshTile, cls seq int, ford seq int) = forall l int :: {t.Links[l].Next} 0 <= l && l < len(t.Links) && cls[l] == -1 ==> t.Links[l].Next == 4294967295 || (t.Links[l].Next < len(t.Links) && cls[t.Links[l].Next] == -1 && ford[t.Links[l].Next] < ford[l])
//@ pred freeGaps(t *MeshTile, cls seq int, ford seq int) = forall l int, k int :: {t.Links[l].Next, cls[k]} 0 <= l && l < len(t.Links) && 0 <= k && k < len(t.Links) && cls[l] == -1 && cls[k] == -1 && ford[k] < ford[l] ==> t.Links[l].Next != 4294967295 && ford[k] <= ford[t.Links[l].Next]
//@ pred freeTop(t *MeshTile, cls seq int, ford seq int, ftop int) = forall k int :: {cls[k]} 0 <= k && k < len(t.Links) && cls[k] == -1 ==> t.LinksFreeList != 4294967295 && ford[k] <= ford[t.LinksFreeList] && ford[k] < ftop
//@ pred freeUniq(t *MeshTile, cls seq int, ford seq int) = forall l int, k int :: {cls[l], cls[k]} 0 <= l && l < len(t.Links) && 0 <= k && k < len(t.Links) && cls[l] == -1 && cls[k] == -1 && ford[k] == ford[l] ==> k == l
//@ pred freeOK(t *MeshTile, cls seq int, ford seq int, ftop int) = freeHead(t, cls) && freeNext(t, cls, ford) && freeGaps(t, cls, ford) && freeTop(t, cls, ford, ftop) && freeUniq(t, cls, ford)
//@ pred polyHead(t *MeshTile, cls seq int, np int) = forall c int :: {t.Polys[c].FirstLink} 0 <= c && c < np ==> t.Polys[c].FirstLink == 4294967295 || (t.Polys[c].FirstLink < len(t.Links) && cls[t.Polys[c].FirstLink] == c)
//@ pred polyFirst(t *MeshTile, cls seq int, ord seq int, np int) = forall c int, k int :: {t.Polys[c].FirstLink, cls[k]} 0 <= c && c < np && 0 <= k && k < len(t.Links) && cls[k] == c ==> t.Polys[c].FirstLink != 4294967295 && ord[t.Polys[c].FirstLink] <= ord[k]
//@ pred polyNext(t *MeshTile, cls seq int, ord seq int) = forall l int :: {t.Links[l].Next} 0 <= l && l < len(t.Links) && cls[l] >= 0 ==> t.Links[l].Next == 4294967295 || (t.Links[l].Next < len(t.Links) && cls[t.Links[l].Next] == cls[l] && ord[t.Links[l].Next] > ord[l])
//@ pred polyGaps(t *MeshTile, cls seq int, ord seq int) = forall l int, k int :: {t.Links[l].Next, cls[k]} 0 <= l && l < len(t.Links) && 0 <= k && k < len(t.Links) && cls[l] >= 0 && cls[k] == cls[l] && ord[k] > ord[l] ==> t.Links[l].Next != 4294967295 && ord[t.Links[l].Next] <= ord[k]
//@ pred polyUniq(t *MeshTile, cls seq int, ord seq int) = forall l int, k int :: {cls[l], cls[k]} 0 <= l && l < len(t.Links) && 0 <= k && k < len(t.Links) && cls[l] >= 0 && cls[k] == cls[l] && ord[k] == ord[l] ==> k == l
//@ pred polyOK(t *MeshTile, cls seq int, ord seq int, np int) = polyHead(t, cls, np) && polyFirst(t, cls, ord, np) && polyNext(t, cls, ord) && polyGaps(t, cls, ord) && polyUniq(t, cls, ord)
//@ pred linksOK(t *MeshTile, cls seq int, ord seq int, ford seq int, ftop int, np int) = linkShape(t, cls, np) && freeOK(t, cls, ford, ftop) && polyOK(t, cls, ord, np)

//@ func detour.allocLink
//@ property C09
//@ gparam cls seq int
//@ gparam ord seq int
//@ gparam ford seq int
//@ gparam ftop int
//@ gparam np int
//@ requires linksOK(tile, cls, ord, ford, ftop, np)
//@ ensures result == 4294967295 ==> linksOK(tile, cls, ord, ford, ftop, np) && (forall k int :: {cls[k]} 0 <= k && k < len(tile.Links) ==> cls[k] != -1)
//@ ensures result != 4294967295 ==> result < len(tile.Links) && cls[result] == -1 && linksOK(tile, update(cls, result, -2), ord, ford, ftop, np)
//@ modifies tile.LinksFreeList

//@ func detour.freeLink
//@ property C09
//@ gparam cls seq int
//@ gparam ord seq int
//@ gparam ford seq int
//@ gparam ftop int
//@ gparam np int
//@ requires linksOK(tile, cls, ord, ford, ftop, np) && link < len(tile.Links) && cls[link] == -2
//@ ensures linksOK(tile, update(cls, link, -1), ord, update(ford, link, ftop), ftop + 1, np)
//@ ensures tile.LinksFreeList == link
//@ modifies tile.LinksFreeList, tile.Links[link].Next

//@ pred leadsTo(m *NavMesh, t *MeshTile, l int, k int) = refTile(m, t.Links[l].Ref) == k

//@ func detour.(*NavMesh).unconnectLinks
//@ property C09
//@ gparam k int
//@ gparam cls0 seq int
//@ gparam ord seq int
//@ gparam ford0 seq int
//@ gparam ftop0 int
//@ gparam np int
//@ ghost cls seq int = cls0
//@ ghost ford seq int = ford0
//@ ghost ftop int = ftop0
//@ requires m != nil && splitOK(m) && 0 <= k && k < len(m.Tiles) && target == &m.Tiles[k] && target != nil && k < int(1) << m.tileBits && inBits(target.Salt, m.saltBits)
//@ requires tile != nil && tile.Header != nil && tile.Header.PolyCount == np && linksOK(tile, cls0, ord, ford0, ftop0, np) && np < 2147483647
//@ ensures linksOK(tile, cls, ord, ford, ftop, np)
//@ ensures forall l int :: {cls[l]} 0 <= l && l < len(tile.Links) ==> cls[l] == (cls0[l] >= 0 && leadsTo(m, tile, l, k) ? -1 : cls0[l])
//@ modifies tile.LinksFreeList, tile.Links[*].Next, tile.Polys[*].FirstLink
//@ paths
//@ hook freeLink before ghost cls = update(cls, j, -2)
//@ hook freeLink after ghost ford = update(ford, j, ftop)
//@ hook freeLink after ghost ftop = ftop + 1
//@ hook freeLink after ghost cls = update(cls, j, -1)
//@ loop 1
//@ invariant 0 <= i && i <= np && targetNum == k && linksOK(tile, cls, ord, ford, ftop, np)
//@ invariant forall l int :: {cls[l]} 0 <= l && l < len(tile.Links) ==> cls[l] == (0 <= cls0[l] && cls0[l] < i && leadsTo(m, tile, l, k) ? -1 : cls0[l])
//@ decreases np - i
//@ loop 2
//@ invariant linksOK(tile, cls, ord, ford, ftop, np)
//@ invariant j == 4294967295 || (j < len(tile.Links) && cls[j] == i)
//@ invariant pj == 4294967295 ? j == poly.FirstLink : (pj < len(tile.Links) && cls[pj] == i && tile.Links[pj].Next == j)
//@ invariant forall l int :: {cls[l]} 0 <= l && l < len(tile.Links) ==> cls[l] == (0 <= cls0[l] && (cls0[l] < i || (cls0[l] == i && (j == 4294967295 || ord[l] < ord[j]))) && leadsTo(m, tile, l, k) ? -1 : cls0[l])
//@ invariant pj == 4294967295 ==> (forall l int :: {cls[l]} 0 <= l && l < len(tile.Links) && cls[l] == i ==> j != 4294967295 && ord[l] >= ord[j])
//@ invariant pj != 4294967295 ==> (forall l int :: {cls[l]} 0 <= l && l < len(tile.Links) && cls[l] == i && ord[l] > ord[pj] ==> j != 4294967295 && ord[l] >= ord[j])
