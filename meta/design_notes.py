NOTES={
'C01':"""All of it is proved, in bit-vector semantics, for every split of the reference bits that `Init` accepts: encoding then decoding returns the three numbers (whole decoder and the three single-field decoders), hence no two triples collide.""",
'C02':"""Proved: `IsValidPolyRef` is true exactly for live references (slot below the capacity, salt equal, tile present, polygon below the count), `TileAndPolyByRef` and `TileByRef` succeed exactly then and hand back the named tile and polygon; outputs are unchanged otherwise.""",
'C03':"""Proved from `Init` down to the bit-counting helpers: refusal exactly when the salt would get fewer than the required bits, otherwise all slots empty with salt 1, on the free list once each (ghost rank along the list), position index empty.""",
'C04':"""Ghost view of the table (`cls`, `nx`, `hd`, `rk`: which list each slot is in, the successor, the heads, a falling rank). Proved for `TileAt`, `TilesAt`, `TileRefAt`, `neighbourTilesAt`, `AddTile` and `RemoveTile`: lookups agree with the view, adding takes exactly one free slot and keeps the others, failing adds change nothing, removal frees the slot and bumps the salt (never 0). The linking code called by AddTile is under frame contracts: proved to write only links, link heads and free-link heads. Bounded: whole add/remove/lookup histories on real tiles. One known finding (below).""",
'C05':"""Proved section by section: each `serialize` writes the bytes a specification function of the value prescribes at consecutive offsets and nothing outside its section, each `unserialize` returns the value those bytes prescribe, sizes agree with `MeshHeader.size`; `ToWriter` emits the set header and the records of exactly the tiles present. Bounded: save/load of whole meshes, files on disk.""",
'C06':"""`Decode` is verified against the contracts of `Init` and `AddTile` with `binary.Read` writing arbitrary bytes and `io.ReadFull` by its documented contract, so the argument covers every stream and every split into reads: an error for wrong magic or version or any short read or impossible record, never a panic or log.Fatal. Bounded: truncations and corruptions of real files through one-byte readers.""",
'C07':"""Ghost chains per hash bucket in strictly falling arena order. Proved: Node/FindNode/FindNodes/NodeIdx/NodeAtIdx/Clear, including that no second node for the same pair can arise and that a find never changes the pool.""",
'C08':"""Heap order plus a multiset (`cnt` with its update lemmas): every operation keeps order, changes the multiset by exactly the given node and stays in the array. `modify` needs the cost to have been lowered, as FindPath does.""",
'C09':"""Ghost classes of links (owner polygon, free, in hand). Proved: `allocLink`, `freeLink`, `unconnectLinks` (exactly the links to the other tile go, order of the rest kept). Termination of the unlink loop is not proved.""",
'C10':"""All proved: filter decision and price, setters change one thing, packed area/type byte.""",
'C11':"""Proved: the builder (`subdivide`, `calcExtends`, `createBVTree`): bounds of inner nodes, every polygon one leaf, skip distances equal the subtree; the tree walk in `NavMeshQuery.queryPolygonsInTile` visits exactly the overlapping leaves and stays inside the array; overlap tests exact; the mesh's own walk visits the same leaves. Quantisation (rounding to the grid, clamping) is checked by bounded runs. Known finding: the mesh-side query stores its results one place too far (below); its contract states what the code guarantees apart from that.""",
'C12':"""Proved: `pathToNode` writes min(n, room) references in order along the recorded parents, leaves the rest of the buffer alone and flags truncation exactly when n exceeds the room; `FindPath`, `Raycast`, `Raycast2`, the sliced start and both sliced finals refuse bad references, missing points, a missing filter and empty buffers with the invalid-parameter status and never report more than the buffer holds; for ray casts the truncation flag implies a full buffer. `FindStraightPath` is under C13. That the searches do not panic, and that truncated results are prefixes of the whole path, is checked by bounded runs over generated meshes with every buffer size.""",
'C13':"""Proved: `appendVertex`, `appendPortals` and `FindStraightPath`: each point goes to the next slot of all three buffers, duplicates update, truncation flag at the full buffer, count within capacity. The geometry of the funnel is only used through frame contracts. Termination of the funnel's restart loop is not proved.""",
'C14':"""Proved for `addSpan` with ghost ownership of every span and the set of solid heights of a column: sorted, disjoint, covering exactly old plus new heights, other columns untouched, area rule with the merge threshold.""",
'C15':"""Proved over well-formed columns for the low-clearance and low-hanging filters: the exact new area of every span, every other field unchanged. For the ledge filter: only areas of column spans change, and only to unwalkable, no access outside the grid; the exact rule (which needs the extremes over all spans of four columns) is compared with an independent oracle on bounded fields.""",
'C16':"""Proved completely, bit vectors.""",
'C17':"""Proved: `BuildCompactHeightfield` with ghost numbering of the walkable spans (cells, counts, floor, ceiling, area, links with the exact acceptance rule and the lowest matching span).""",
'C18':"""Proved: `MarkConvexPolyArea` sets exactly the spans selected by its own point-in-polygon test within the window it computes; erosion: the two distance sweeps as relational invariants, a span is cleared exactly when the swept distance is below the threshold, and the swept distance is attained by some walk (soundness) and bounded by every up-then-down walk. Exactness on single-layer ground and the floating-point window are bounded.""",
'C19':"""Proved for `addVertex` with hash chains in strictly falling order.""",
'C20':"""Proved for all coordinates of the 16-bit grid against exact integer cross products (nonlinear lemmas).""",
'C21':"""Proved: builder and both queries, with ghost positions and bounds; three monotonicity axioms about rounding.""",
'C22':"""Proved with uninterpreted float operations (the same expression the specification writes), IEEE comparisons.""",
'C23':"""Proved; shifting keeps every remaining volume whole.""",
'C24':"""Proved: `classifyOffMeshPoint` (side for every position), `CreateNavMeshData`: refusals, header counts, section sizes, the encoding of every polygon's vertices, neighbours, borders and portals. The off-mesh connections, detail meshes and the tree section are checked by bounded evaluation against an independent description of the layout.""",
'C25':"""Proved with ghost directed-edge maps: both directions of the equivalence and the range.""",
'C26':"""Proved; time.Now is an arbitrary value.""",
'C31':"""Proved: `portalPoints8/6`, `edgeMidPoint`: link search, the edge and its cut for border links (the exact interpolation expression), off-mesh end points, failure statuses leave the output alone.""",
}
