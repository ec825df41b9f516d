#!/usr/bin/env python3
# Regenerates properties.jsonl (one place to edit the texts).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

p("C01","Polygon and tile references pack and unpack losslessly",
 "A polygon reference built from a salt, a tile number and a polygon number decodes back to exactly those three numbers, whichever decoding entry point is used and however the navigation mesh splits the 32 reference bits among the three fields. Consequently two different (salt, tile, polygon) triples never share a reference, and the base reference of a tile encodes that tile's own slot, its current salt and polygon 0.",
 ["inputs","configurations"],"all field values in range, all splits tileBits+polyBits+saltBits = 32 with every field >= 1 bit",
 "Tests only use the splits of a few fixture meshes and references produced by those meshes.",
 ["detour/mesh.go"],[("encodePolyID / decodePolyID*","detour/mesh.go"),("TileRef / PolyRefBase","detour/mesh.go")],
 [("tileBits/polyBits/saltBits","the split of the reference bits","detour/mesh.go NavMesh")],["NavMesh.TileRef","NavMesh.DecodePolyID"])

p("C02","References that do not denote a live polygon are rejected",
 "Looking up a polygon reference succeeds exactly when its tile number is below the mesh capacity, its salt equals that slot's current salt, the slot holds a tile, and its polygon number is below that tile's polygon count; every other reference, including zero and references to removed or replaced tiles, is reported invalid without panicking. On success the tile and polygon handed back are the ones the reference names.",
 ["inputs","histories"],"all 32-bit references against all tile-table states that satisfy the mesh invariant",
 "Tests look up a handful of valid references in fixture meshes; stale salts, empty slots and boundary polygon numbers are never exercised.",
 ["detour/mesh.go","detour/polyquery.go"],[("IsValidPolyRef, TileAndPolyByRef, TileByRef","detour/mesh.go")],
 [("Tiles[i].Salt","generation counter of slot i","detour/tile.go")],["NavMesh.IsValidPolyRef","NavMesh.TileAndPolyByRef"])

p("C03","Mesh initialisation yields an empty, fully available tile table or refuses",
 "Initialising a navigation mesh either refuses the parameters with an invalid-parameter status, exactly when fewer than 8 bits of a reference would be left for the salt, or leaves every tile slot empty, with salt 1, and available exactly once for allocation, with an empty position index. The number of bits reserved for tiles and polygons is enough to number every slot and every polygon the parameters announce.",
 ["configurations"],"all parameter values for tile and polygon capacity",
 "Tests initialise meshes with two or three parameter sets, none near the bit limits.",
 ["detour/mesh.go"],[("NavMesh.Init","detour/mesh.go"),("nextPow2, ilog2","detour/mesh.go")],
 [("nextFree, Tiles, posLookup","free list, slots, hash index","detour/mesh.go NavMesh")],["NavMesh.Init"])

p("C04","Tile table: positions, slots and generations stay consistent",
 "Looking up a grid position and layer returns the tile stored there if one is stored and nothing otherwise, and listing a position returns every layer stored there once. Adding a tile at a free position makes it the one found there and takes exactly one free slot, adding at an occupied position or to a full table fails with a status and changes nothing, and removing a tile makes its position empty, returns its slot to the free slots and gives the slot a new non-zero generation.",
 ["histories","inputs"],"all tile tables reachable by any sequence of additions and removals; all positions including negative ones",
 "Tests add the tiles of one fixture in one order and never remove, refill or exhaust the table.",
 ["detour/mesh.go","detour/tile.go"],[("AddTile, RemoveTile, TileAt, TilesAt, TileRefAt","detour/mesh.go")],
 [("posLookup chains","tiles hashed by position","detour/mesh.go"),("nextFree","free slots","detour/mesh.go")],["NavMesh.TileAt","NavMesh.AddTile","NavMesh.RemoveTile"])

p("C05","Serialised tiles and mesh headers read back identical",
 "Every value written to the binary form of a navigation mesh (set header, tile records, tile header, vertices, polygons, detail meshes, bounding-volume nodes and off-mesh connections) is read back bit for bit identical from the same position, and the reader and the writer agree on the number of bytes. Writing stays inside the announced size and does not disturb bytes that belong to another section.",
 ["inputs"],"all field values, all section sizes and counts",
 "The reference files contain no off-mesh connections and few tiles; a field swapped in both directions or a section overlapping another one is invisible to them.",
 ["detour/mesh.go","detour/tile.go","detour/structs.go","detour/navmeshcreate.go"],[("serialize/unserialize","detour/tile.go, detour/structs.go, detour/mesh.go")],
 [],["CreateNavMeshData","Decode","NavMesh.SaveToFile"])

p("C06","Malformed mesh files are refused, never half-read",
 "Decoding a navigation mesh reports an error, rather than returning a mesh, panicking or ending the process, when the input does not carry the expected magic number and version, or ends before the data its headers announce. How the underlying reader splits the bytes into reads has no influence on the result.",
 ["inputs","fault_sequences"],"all byte streams and all ways a reader may fragment them",
 "Tests decode intact files from a file reader that never returns short reads.",
 ["detour/mesh.go"],[("Decode","detour/mesh.go")],[],["Decode"])

p("C07","Search-node pool: one node per (polygon, state), never aliased",
 "Asking the node pool for a polygon and state returns the node already handed out for that pair if there is one, otherwise a fresh node that no other pair owns, and nothing when the pool is full; a find without allocation agrees with this and never changes the pool. Node numbers and nodes convert into each other without loss, and clearing the pool forgets every pair.",
 ["histories","inputs"],"all request histories, capacities and hash collisions",
 "Path tests allocate a few hundred nodes with an unknown collision pattern and never look at the pool.",
 ["detour/node.go"],[("Node, FindNode, FindNodes, Clear, NodeIdx, NodeAtIdx","detour/node.go")],
 [("first/next/nodes/nodeCount","hash chains over an arena","detour/node.go")],["NodePool.Node"])

p("C08","The search open list always yields the cheapest node",
 "Popping the open list returns a node whose total cost is no greater than that of any node in it and removes exactly that node; pushing adds exactly the given node, and lowering the cost of a queued node and announcing it keeps the list correct. The list holds the same nodes before and after reordering, and never writes outside its capacity.",
 ["histories","inputs"],"all push/pop/modify histories and all costs that are not NaN",
 "Path tests only see the final path; a queue that returns the second-cheapest node still finds a path on the fixtures.",
 ["detour/nodequeue.go"],[("push, pop, modify, bubbleUp, trickleDown","detour/nodequeue.go")],
 [("heap,size","binary min-heap on Total","detour/nodequeue.go")],["nodeQueue"])

p("C09","Tile link storage is never leaked, shared or lost",
 "Allocating a link from a tile hands out a link that was free and reports exhaustion when none is; releasing it makes it available again and leaves every other link as it was. Disconnecting two tiles removes from one tile exactly the links that lead to the other and preserves the others in order.",
 ["histories","inputs"],"all link lists and free lists of all tiles",
 "No test removes a tile, so the release and disconnection code never runs.",
 ["detour/mesh.go","detour/tile.go"],[("allocLink, freeLink, unconnectLinks","detour/mesh.go")],
 [("LinksFreeList, Poly.FirstLink","heads of the link lists","detour/tile.go")],["NavMesh.RemoveTile"])

p("C10","Query filters admit and price polygons by flags and area only",
 "A standard filter lets a polygon through exactly when it has at least one included flag and no excluded flag, and prices a move as its straight-line length times the cost set for the polygon's area. Setting one area's cost or the flag masks changes nothing else, and a polygon's area id (0-63) and type can be set and read back independently of each other.",
 ["inputs"],"all flag masks, areas, types and costs",
 "Tests use one filter with default masks.",
 ["detour/queryfilter.go","detour/poly.go"],[("PassFilter, Cost, SetAreaCost","detour/queryfilter.go"),("SetArea, SetType","detour/poly.go")],[],["StandardQueryFilter.PassFilter"])

p("C11","Box queries report exactly the polygons whose boxes overlap",
 "A bounding-box query over a tile's bounding-volume tree visits every leaf whose quantised box overlaps the quantised query box and reports no other leaf, without running outside the node array; the tree builder gives every inner node a box that contains all the boxes below it, lists every polygon once, and stores skip distances that jump over exactly the node's subtree. Quantised and floating-point box overlap tests are symmetric and exact.",
 ["inputs"],"all boxes and all trees the builder can produce",
 "Tests query a few points near the middle of fixture tiles.",
 ["detour/mesh.go","detour/navmeshcreate.go","detour/common.go","detour/query.go"],[("queryPolygonsInTile","detour/mesh.go, detour/query.go"),("calcExtends, subdivide","detour/navmeshcreate.go"),("OverlapBounds, OverlapQuantBounds","detour/common.go")],
 [],["NavMeshQuery.FindNearestPoly","NavMeshQuery.QueryPolygons"])

p("C12","Path buffers are honoured and bad query arguments refused",
 "A path query never writes more entries than the caller's buffer holds, never reports more than it wrote, returns the path in order from the start polygon along the recorded parents, and marks the result as truncated exactly when the buffer was too small. Invalid references, a missing filter, missing points and an empty buffer give an invalid-parameter failure instead of a panic.",
 ["inputs"],"all buffers, node chains and argument combinations",
 "Tests pass large buffers and mostly valid arguments.",
 ["detour/query.go"],[("FindPath, pathToNode, FindStraightPath, Raycast","detour/query.go")],[],["NavMeshQuery.FindPath"])

p("C13","Straight-path output is bounded, ordered and correctly flagged",
 "Every point a straight-path query emits is stored, with its flag and polygon, in the next free slot of the caller's buffers; a point equal to the last stored one updates that entry instead of duplicating it, and the query stops with a truncation flag when the buffers are full. The reported count never exceeds the capacity and equals the number of filled entries.",
 ["inputs"],"all buffer sizes and all sequences of emitted points",
 "Tests use buffers far larger than the result.",
 ["detour/query.go"],[("appendVertex","detour/query.go"),("FindStraightPath","detour/query.go")],[],["NavMeshQuery.FindStraightPath"])

p("C14","Voxel columns stay sorted and disjoint and keep all solid matter",
 "Adding a span to a heightfield column leaves the column sorted from bottom to top with no two spans overlapping or touching out of order, covering exactly the heights covered before plus the new ones, and no other column changes. Where the new span merges with others, the merged span takes the largest area among the new span and those merged spans whose top lies no more than the merge threshold below the new one's.",
 ["histories","inputs"],"all columns, all spans, all merge thresholds",
 "Tests add three spans to one column.",
 ["recast/heightfield.go","recast/rasterization.go"],[("addSpan, allocSpan, freeSpan","recast/rasterization.go")],
 [("Spans[x+y*w], Freelist, Pools","linked columns and span free list","recast/heightfield.go")],["Heightfield.AddSpan"])

p("C15","Walkability filters change exactly the spans their rule names",
 "Low-clearance filtering clears the area of exactly the spans whose open space above is at most the walkable height; low-hanging-obstacle filtering raises exactly the unwalkable spans that sit within the climb height on top of a walkable one to that one's area. Ledge filtering clears exactly the walkable spans that stand above the ground at the rim of the field, next to a reachable drop deeper than the climb height, or among reachable neighbours (no more than a climb away) whose heights differ by more than the climb height. None of them alters any other field or span.",
 ["inputs"],"all heightfields with well-formed columns and all agent heights and climbs",
 "Only whole-pipeline comparisons on a few meshes exercise the filters, with fixed agent settings.",
 ["recast/filter.go"],[("FilterLowHangingWalkableObstacles, FilterLedgeSpans, FilterWalkableLowHeightSpans","recast/filter.go")],[],["FilterWalkableLowHeightSpans"])

p("C16","Span connections pack and unpack losslessly; direction tables are exact",
 "Setting a neighbour connection of an open span in one of the four directions makes exactly that direction read back the stored value (0-63) and leaves the other three directions and all other fields as they were, whatever was stored before. The direction tables give four distinct unit steps in which opposite directions cancel.",
 ["inputs"],"all spans, directions and stored values",
 "The pipeline sets every connection exactly once per span, so overwriting is never tested.",
 ["recast/heightfield.go","recast/recast.go"],[("SetCon, GetCon, GetDirOffsetX/Y/ForOffset","recast/heightfield.go")],[],["SetCon","GetCon"])

p("C17","Open-space conversion keeps every walkable span and links both ways alike",
 "Building the compact heightfield produces, column by column and in order, exactly one open span per walkable solid span, starting at its top and reaching to the next span above (or the limit), with its area. A neighbour link is stored exactly when the overlap of the two open spans is at least the walkable height and their floors differ by at most the climb, and it points to the lowest such span of the neighbouring column (among its first 63).",
 ["inputs"],"all heightfields, agent heights and climbs",
 "Only whole-pipeline comparisons on fixture meshes reach it.",
 ["recast/heightfield.go"],[("BuildCompactHeightfield, HeightFieldSpanCount","recast/heightfield.go")],[],["BuildCompactHeightfield"])

p("C18","Area marking and erosion touch exactly the cells they should",
 "Marking a convex volume sets the area of exactly the walkable open spans whose column centre lies inside the polygon and whose floor lies between its heights (in whole cells); volumes outside the grid change nothing and never panic. Erosion makes a span unwalkable only if a walk along links (2 per straight, 3 per diagonal step, in half cells) shorter than twice the radius leads to a span that is unwalkable or misses a walkable neighbour, does so for every span for which a walk first towards higher and then towards lower columns is that short (on single-layer ground: for every span), and changes nothing else.",
 ["inputs"],"all convex volumes, radii up to 127 and compact heightfields",
 "No test marks areas; erosion only runs with radius 2 on fixtures.",
 ["recast/area.go"],[("ErodeWalkableArea, MarkConvexPolyArea, pointInPoly","recast/area.go")],[],["ErodeWalkableArea"])

p("C19","Polygon mesh vertices are shared, never duplicated or conflated",
 "Adding a contour vertex to a polygon mesh returns the index of an existing vertex with the same horizontal position and a height within two cells if there is one, and otherwise appends the vertex with its exact coordinates; existing vertices never change and the returned index always denotes a vertex at that horizontal position.",
 ["histories","inputs"],"all insertion histories, coordinates (0..65535) and hash collisions",
 "Pipeline fixtures have few vertices and heights far from the wrap-around limit.",
 ["recast/mesh.go"],[("addVertex, computeVertexHash","recast/mesh.go")],[],["BuildPolyMesh"])

p("C20","Integer polygon predicates agree with exact geometry",
 "Orientation, collinearity, betweenness, proper intersection and visibility-cone tests used by contour and polygon triangulation agree with the exact mathematical predicates for all coordinates the voxel grid can produce, and cyclic index helpers step through a polygon without leaving it.",
 ["inputs"],"all coordinates within the 16-bit grid range",
 "Triangulation is only exercised on fixture contours.",
 ["recast/mesh.go","recast/contour.go","recast/recast.go"],[("area2, left, collinear, between, intersectProp, intersect, inCone, prev, next","recast/mesh.go")],[],["BuildPolyMesh"])

p("C21","Spatial chunks partition the triangles and queries miss none",
 "Building the chunked triangle index assigns every input triangle to exactly one leaf chunk, gives every node a rectangle that contains those of everything below it, and never exceeds its node budget. A rectangle or segment query returns the chunks overlapping it, each once, all of them unless the caller's buffer is full, and never writes outside that buffer.",
 ["inputs"],"all triangle sets, chunk sizes, query rectangles and buffer sizes",
 "Tile builds on fixtures only use one chunk size and big buffers; a missed chunk shows up as a missing triangle at worst.",
 ["recast/chunkytrimesh.go"],[("NewChunkyTriMesh, subdivide, ChunksOverlappingRect","recast/chunkytrimesh.go")],[],["ChunkyTriMesh.ChunksOverlappingRect"])

p("C22","Slope marking, bounds and grid size are exact",
 "The bounds of a vertex set are the componentwise minimum and maximum of its vertices; marking walkable (or clearing unwalkable) triangles changes the area of exactly the triangles whose normal's vertical component is above (respectively at most) the threshold, and nothing else; the grid size is the extent divided by the cell size, rounded to nearest.",
 ["inputs"],"all vertex arrays without NaN, triangle lists, thresholds",
 "Tests check one or two triangles.",
 ["recast/recast.go"],[("CalcBounds, CalcGridSize, MarkWalkableTriangles, ClearUnwalkableTriangles","recast/recast.go")],[],["CalcBounds"])

p("C23","Convex volumes are stored and deleted intact",
 "Adding a convex volume of up to 12 corners appends exactly the given corners, heights and area while fewer than 256 volumes are stored, and changes nothing when the table is full. Deleting a stored volume removes exactly that one and keeps the data of every remaining volume together and intact.",
 ["histories","inputs"],"all add/delete histories and all indices of stored volumes",
 "No test adds or deletes input annotations.",
 ["recast/inputgeom.go"],[("AddConvexVolume, DeleteConvexVolume","recast/inputgeom.go")],[("volumes, volumeCount","table of volumes and number in use","recast/inputgeom.go InputGeom")],["InputGeom.ConvexVolumes"])

p("C24","Navmesh creation validates its input and lays out tiles consistently",
 "Creating navigation data refuses inputs that cannot be represented (too many vertices per polygon, too many or no vertices or polygons) and otherwise produces data whose header counts equal the sections written; each polygon keeps its vertices, flags, area and neighbour relations, with solid borders and tile-portal edges encoded so that the side is recovered exactly, and off-mesh end points are classified to the border they lie beyond.",
 ["inputs"],"all creation parameters",
 "Fixtures contain no off-mesh connections and only a few border configurations.",
 ["detour/navmeshcreate.go"],[("CreateNavMeshData, classifyOffMeshPoint","detour/navmeshcreate.go")],[],["CreateNavMeshData"])

p("C25","Adjacent polygons know each other",
 "After mesh adjacency is computed, two polygon edges name each other exactly when they are the same pair of vertices in opposite order within the mesh; every other edge is marked as a border. No edge refers to a polygon outside the mesh.",
 ["inputs"],"all polygon meshes in which each edge is shared by at most two polygons",
 "Only fixture meshes reach it, and adjacency is checked only through the final binary file.",
 ["recast/mesh.go"],[("buildMeshAdjacency","recast/mesh.go")],[],["BuildPolyMesh"])

p("C26","Build log and timers record faithfully",
 "Logging appends exactly one message while there is room, dropping nothing that was recorded before, and a disabled context records nothing; stopping a timer adds the elapsed time to that timer alone, and resetting clears all timers.",
 ["histories"],"all call histories",
 "Tests never inspect the build context.",
 ["recast/buildcontext.go"],[("BuildContext","recast/buildcontext.go")],[],["BuildContext"])

p("C27","Rasterisation covers exactly the voxels a triangle touches",
 "Rasterising a triangle adds spans to exactly the columns its projection overlaps, with heights that bracket the clipped triangle within the column, clamped to the field.",
 ["inputs"],"all triangles and heightfields","Tests rasterise a few triangles.",
 ["recast/rasterization.go"],[("rasterizeTri, dividePoly","recast/rasterization.go")],[],["RasterizeTriangle"])

p("C28","Found paths are connected and cheapest",
 "A successful path query returns polygons of which each is linked to the next and passable under the filter, and whose total cost is minimal among all such paths.",
 ["inputs"],"all navigation meshes, filters and end points","Tests check a handful of paths on fixtures.",
 ["detour/query.go"],[("FindPath","detour/query.go")],[],["NavMeshQuery.FindPath"])

p("C29","Region partitioning covers every walkable span once",
 "Region building assigns every walkable, non-border span to exactly one region, regions are connected, and small isolated regions are removed as configured.",
 ["inputs"],"all compact heightfields","Only fixtures are partitioned.",
 ["recast/region.go"],[("BuildRegionsMonotone, BuildRegions","recast/region.go")],[],["BuildRegionsMonotone"])

p("C30","Contours, polygons and detail meshes stay within the configured error",
 "Simplified contours deviate from the region borders by at most the configured error, polygons are convex with bounded vertex count and cover the regions, and detail meshes deviate from the height data by at most the sampling error.",
 ["inputs"],"all inputs and build settings","Only fixture outputs are compared.",
 ["recast/contour.go","recast/mesh.go","recast/meshdetail.go"],[("simplifyContour, BuildPolyMesh, BuildPolyMeshDetail","recast/*.go")],[],["BuildPolyMeshDetail"])

p("C31","Portals between linked polygons are the shared edge, and nothing else is crossable",
 "Crossing from one polygon to a linked neighbour goes through a portal: the edge named by the link, cut down to the part recorded for the link when it crosses a tile border, or the connection's end point when one of the two is an off-mesh connection. Polygons that are not linked, and references that are dead, yield a failure and leave the output as it was.",
 ["inputs"],"all navigation meshes with well-formed link lists, all pairs of references",
 "Tests check paths on fixtures, never a single portal; off-mesh and cut-down portals are not sampled at all.",
 ["detour/query.go"],[("portal computation","detour/query.go")],[],["NavMeshQuery.FindStraightPath"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
