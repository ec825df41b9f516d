BASE='Every obligation is regenerated from the source on each run and discharged for all inputs. Trusted: the verifier in /verif/tool (Go semantics, memory model), go/types, z3 and cvc5.'
CLAIMS={
'C01':dict(note=BASE),
'C02':dict(note=BASE),
'C04':dict(note=BASE+' What the linking of a tile with its neighbours may change in memory is under contract; that the linking code itself does not panic on arbitrary tile content is checked by bounded evaluation only (see C09).'),
'C05':dict(note=BASE+' The writer handed in is taken to follow the io.Writer contract (it does not change the bytes it is given); the length of a whole file stays below 2 GB.'),
'C03':dict(note=BASE+' The bit-counting helpers of the math dependency are verified from their source too; memory for the slots is assumed to be available.'),
'C06':dict(note=BASE+' The panics of AddTile on tiles whose contents (not sizes) are malformed are outside the property; binary.Read is modelled as writing any value into its argument, io.ReadFull by its documented contract.'),
'C07':dict(note=BASE),
'C08':dict(note=BASE),
'C09':dict(note=BASE),
'C10':dict(note=BASE),
'C14':dict(note=BASE+' Spans are added with bottom not above top and a non-negative threshold.'),
'C15':dict(note=BASE+' For ledges it is proved that only areas of column spans are cleared and that the filter never leaves the grid; that it clears exactly the spans of the rule is checked by bounded evaluation.'),
'C17':dict(note=BASE+' Columns hold at most 255 walkable spans (the type of the count), fields at most 2^31-1 cells.'),
'C18':dict(note=BASE+' The window of columns marking looks at is proved as computed from the corner bounds; that it misses no inside column (floating point) and that erosion is exact on single-layer ground are checked by bounded runs only.'),
'C16':dict(note=BASE),
'C19':dict(note=BASE),
'C20':dict(note=BASE),
'C21':dict(note=BASE+' Finite coordinates, at most 268435455 triangles; rounding of subtraction and multiplication is taken to be monotone; sort.SliceStable is taken to permute its elements.'),
'C22':dict(note=BASE),
'C23':dict(note=BASE+' The slice of corners handed in does not overlap the geometry itself.'),
'C25':dict(note=BASE+' Meshes with fewer than 65535 vertices and polygons (the range of the stored numbers).'),
'C26':dict(note=BASE),
'C13':dict(note=BASE),
'C31':dict(note=BASE),
'C11':dict(note=BASE),
'C12':dict(note=BASE+' The searches themselves (which polygons a query visits, absence of panics on damaged tile data) are checked by bounded evaluation; user-supplied filters are taken not to change the mesh or the query.'),
'C24':dict(note=BASE),
}
NA={
'C27':'needs facts about the values of chained float32 clipping (rounding of products and quotients over several planes), which neither the uninterpreted nor the solvers\' IEEE theory decides for all inputs; the columns the spans go into are covered by C14',
'C28':'optimality of A* over float32 costs needs an inductive argument over an unbounded graph with rounded, non-associative sums; the parts that a contract states (node pool, open list, portals, path read-out, buffers) are C07, C08, C12 and C31',
'C29':'connectedness of watershed regions is a reachability property over flood fills with region merging; no first-order contract within reach of the solvers states it',
'C30':'error bounds over iterated float32 simplification and sampled heights; the exact integer predicates, vertex sharing and adjacency these stages rest on are C19, C20 and C25',
}
