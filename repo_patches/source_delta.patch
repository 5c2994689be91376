From dcd7b164d98eab3fb9623d5b79ba13619f5e7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:56 +0000
Subject: [PATCH 01/33] fix: make_block honours --underground-length without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..1c0cff9 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -86,7 +86,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From afa81405d8fdda23d56ffe99eb760425bf8f00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:11 +0000
Subject: [PATCH 02/33] fix: query --export-blueprints passes a belt level, not
 its name

---
 factorio_sat/calculate_optimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..34dea16 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -294,7 +294,8 @@ def main():
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                level = blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, level))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From 495f37838b454bf5d4652407b0862964290ec141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:25 +0000
Subject: [PATCH 03/33] fix: parse_network follows undergrounds backwards into
 the first row

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..b6b1e4d 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From 9dd76222eeff27b5b50c447f8f990323387d7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:40 +0000
Subject: [PATCH 04/33] fix: parse_network accepts a splitter side that touches
 an empty tile

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b6b1e4d..c840118 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if isinstance(offset_tile, (EmptyTile, FillerTile)):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From 64f7b53851d5d889951670e4dbdc88061a3b349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:57 +0000
Subject: [PATCH 05/33] fix: balancer ends may also take the last offset

---
 factorio_sat/belt_balancer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..14dde68 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,9 +44,9 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
 
-    if len(offsets) == 0:
+    if len(offsets) == 1:
         for tile in tiles:
             grid.clauses += [[tile.input_direction[direction]]]
     else:
@@ -66,9 +66,9 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
 
-    if len(offsets) == 0:
+    if len(offsets) == 1:
         for tile in tiles:
             grid.clauses += [[tile.output_direction[direction]], [tile.is_belt]]
     else:
-- 
2.43.0


From ba02da6a9819abc6abd6ff40282f586358e9b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 06/33] fix: --use-ends and --180 no longer force every
 input-side tile to be a belt

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 14dde68..d184239 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -59,7 +59,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
                 elif rest_empty:
                     consequences += set_all_false(tile.all_direction)
                 else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                    consequences += [[-tile.input_direction[direction]]]
             grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From 923a5601398c65a8e6a49905c3fc460ed9085704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:49 +0000
Subject: [PATCH 07/33] fix: logarithmic_amo also accepts no literal set

---
 factorio_sat/cardinality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index c5860b5..1852d31 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -18,7 +18,7 @@ def quadratic_amo(literals: List[LiteralType], _: Optional[AllocatorType] = None
 
 def logarithmic_amo(literals: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     location_literals = [allocator() for _ in range(bin_length(len(literals)))]
-    clauses = [list(literals)]
+    clauses = []
     for i, lit in enumerate(literals):
         clauses += implies([lit], set_number(i, location_literals))
     return clauses
-- 
2.43.0


From 06c7971031742ef810b685e687cb765d039a49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:03 +0000
Subject: [PATCH 08/33] fix: saving progress cannot lose the database when
 interrupted

---
 factorio_sat/calculate_optimal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 34dea16..a86734a 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -283,8 +283,13 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
+        # Replace the database in one step, so that an interrupted run never leaves a truncated file behind
+        temp_file = result_file + '.tmp'
+        with open(temp_file, 'w') as f:
             json.dump(data, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_file, result_file)
 
     if args.mode == 'query':
         if args.export_blueprints:
-- 
2.43.0


From 88a6acfd5c6bea9e04942274af2b555af9f8a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 09/33] fix: rotating or flipping a layout keeps assembling
 machines in one piece

---
 factorio_sat/tile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/tile.py b/factorio_sat/tile.py
index 60087f7..9f91ef5 100644
--- a/factorio_sat/tile.py
+++ b/factorio_sat/tile.py
@@ -189,7 +189,7 @@ class Inserter(TransformableTile):
 
 
 @dataclass(frozen=True)
-class AssemblingMachine(BaseTile):
+class AssemblingMachine(TransformableTile):
     type_key: ClassVar[str] = 'assembling_machine'
 
     x: int
@@ -199,6 +199,12 @@ class AssemblingMachine(BaseTile):
         assert 0 <= self.x < 3
         assert 0 <= self.y < 3
 
+    def flip_x(self) -> 'AssemblingMachine':
+        return type(self)(2 - self.x, self.y)
+
+    def rotate_90(self) -> 'AssemblingMachine':
+        return type(self)(self.y, 2 - self.x)
+
     def write(self) -> Dict[str, Any]:
         return {
             **super().write(),
-- 
2.43.0


From 5a071498ead87987b03bb2b7e8aa1ca49cba0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:23 +0000
Subject: [PATCH 10/33] fix: an IPASIR model also covers variables that occur
 in no clause

---
 factorio_sat/ipasir.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/ipasir.py b/factorio_sat/ipasir.py
index 361eb76..230af42 100644
--- a/factorio_sat/ipasir.py
+++ b/factorio_sat/ipasir.py
@@ -134,8 +134,9 @@ class IPASIRSolver:
         self.check_closed()
 
         model = []
-        for var in self.variables:
-            value = self.lib.ipasir_val(self.solver_p, var)
+        for var in range(1, max(self.variables, default=0) + 1):
+            # Variables that were skipped in the clauses are unknown to the library, their value is arbitrary
+            value = self.lib.ipasir_val(self.solver_p, var) if var in self.variables else -var
             if value == 0:
                 value = var
             model.append(value)
-- 
2.43.0


From f97417041faf915249007029a832a0edef15c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 11/33] fix: crosstable only reports impossible when every
 underground length is known impossible

---
 factorio_sat/calculate_optimal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index a86734a..13e8831 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -220,8 +220,7 @@ def export_crosstable(stores: List[NetworkSolutionStore], crosstable_filename: s
                         exists = store.does_balancer_exist((underground_length, width + 2, height))
                         if exists:
                             break
-                        if exists is False:
-                            is_known = True
+                        is_known = exists is False  # Impossible with the longest underground, thus with any
                     else:
                         character = impossible if is_known else unknown
 
-- 
2.43.0


From d907bf79fd5d099acca47be191e5e3b7806cd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:56 +0000
Subject: [PATCH 12/33] fix: iterate_tile_blocks applies the vertical limits to
 the vertical coordinate

---
 factorio_sat/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..16f1601 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -339,7 +339,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if min_y is not None:
                     if y < min_y:
                         continue
-                    if x + max_y_offset < min_y:
+                    if y + max_y_offset < min_y:
                         continue
                 if max_x is not None:
                     if x > max_x:
@@ -349,7 +349,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if max_y is not None:
                     if y > max_y:
                         continue
-                    if x + max_y_offset > max_y:
+                    if y + max_y_offset > max_y:
                         continue
 
                 yield np.frompyfunc(get_tile, 2, 1)(*np.ogrid[0:row_count, 0:column_count])
-- 
2.43.0


From 80a2f4e4848b339b525d374eeaac6e91e6b1ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:14 +0000
Subject: [PATCH 13/33] fix: a truncated model from an external solver is an
 error

---
 factorio_sat/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 16f1601..5191701 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -63,7 +63,7 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
         while True:
             line = result.readline()
             if len(line) == 0:
-                break
+                raise RuntimeError('Solver process crashed')
             if line.startswith('c'):
                 print(line, file=sys.stderr, end='')
                 continue
-- 
2.43.0


From b0d940b518929f579012d5b93ae0ac0145c62e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:32 +0000
Subject: [PATCH 14/33] fix: importing a blueprint with belts facing each other

---
 factorio_sat/blueprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..eb672c0 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -130,6 +130,9 @@ def resolve_belt_input_directions(tiles):
             if neighbour.output_direction != direction:
                 continue
 
+            if direction == tile.output_direction.reverse:  # Head-on, does not feed this belt
+                continue
+
             if input_direction is None:
                 input_direction = direction
             else:
-- 
2.43.0


From 71086cb6b5a827cd3b44762c76aeaed013063efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 15/33] fix: directly coupled splitters are always connected

---
 factorio_sat/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..8370ae1 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -483,6 +483,13 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
 
                 self.clauses += literals_same(tile_a.output_direction[direction], tile_b.input_direction[direction])
 
+                # A splitter directly behind another one facing the same way always feeds it
+                self.clauses.append([
+                    -tile_a.is_splitter, -tile_a.input_direction[direction],
+                    -tile_b.is_splitter, -tile_b.output_direction[direction],
+                    tile_a.output_direction[direction],
+                ])
+
                 # Handles special splitter output case
                 self.clauses += implies([tile_a.input_direction[direction], tile_a.is_splitter, -tile_b.is_splitter], [
                     [-tile_b.input_direction[direction.next], -tile_b.output_direction[direction.next]],
-- 
2.43.0


From 7d357a4f9f2243297b44a3287009e9d0b704f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:30 +0000
Subject: [PATCH 16/33] fix: make_block --no-parallel indexes undergrounds by
 direction

---
 factorio_sat/make_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 1c0cff9..196ced5 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,10 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction.reverse]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction.reverse]])
 
 
 def main():
-- 
2.43.0


From f71015a46e3ab962d18c4b492f27f56f30ba7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:02 +0000
Subject: [PATCH 17/33] fix: make_block --tile --single-loop counts loops that
 close over the seam

---
 factorio_sat/make_block.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 196ced5..2646dce 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -1,12 +1,21 @@
 import argparse
 import json
 import sys
+from typing import List
 
 from . import optimisations
 from . import solver
 from .direction import Axis, Direction
 from .template import EdgeMode
-from .util import implies, increment_number, invert_components, set_all_false, set_number, set_numbers_equal
+from .util import LiteralType, implies, increment_number, invert_components, set_all_false, set_not_number, set_number, set_numbers_equal
+
+
+def next_position(length: int, position: List[LiteralType], output: List[LiteralType]):
+    # Position along a loop of the given length, the last position is followed by the first
+    last = length - 1
+    clauses = [[*set_not_number(last, position), *clause] for clause in set_number(0, output)]
+    clauses += [[*is_last, *clause] for is_last in set_number(last, position) for clause in increment_number(position, output)]
+    return clauses
 
 
 def ensure_loop_length(grid: solver.Grid):
@@ -22,7 +31,6 @@ def ensure_loop_length(grid: solver.Grid):
             for direction in Direction:
                 dx, dy = direction.vec
                 tile_b = grid.get_tile_instance_offset(x, y, dx, dy)
-                x1, y1 = x + dx, y + dy
 
                 if tile_b is None:
                     continue
@@ -34,13 +42,10 @@ def ensure_loop_length(grid: solver.Grid):
                     colour_a = tile_a.colour_uy
                     colour_b = tile_b.colour_uy
 
-                if x1 == 0 and y1 == 0:
-                    grid.clauses += implies([tile_a.output_direction[direction]], set_number(grid.colours - 1, tile_a.colour))
-                else:
-                    grid.clauses += implies([tile_a.output_direction[direction]], increment_number(tile_a.colour, tile_b.colour))
+                grid.clauses += implies([tile_a.output_direction[direction]], next_position(grid.colours, tile_a.colour, tile_b.colour))
 
                 grid.clauses += implies([tile_a.input_direction[direction], *invert_components(tile_a.output_direction)],
-                                        increment_number(tile_a.colour, colour_b))
+                                        next_position(grid.colours, tile_a.colour, colour_b))
 
                 grid.clauses += implies([*invert_components(tile_b.input_direction), tile_b.output_direction[direction]],
                                         set_numbers_equal(colour_a, tile_b.colour))
-- 
2.43.0


From d42f664134227448e2019b8191a12d03b460d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:29 +0000
Subject: [PATCH 18/33] fix: a solver library that stops without an answer is
 an error

---
 factorio_sat/template.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 5191701..31a3b2b 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -14,7 +14,7 @@ import numpy as np
 from pysat.formula import CNF, IDPool
 from pysat.solvers import Solver
 
-from .ipasir import IPASIRLibrary
+from .ipasir import IPASIRLibrary, IPASIRSolver
 from .tile import BaseTile
 from .util import ClauseList, LiteralType, read_number
 
@@ -97,6 +97,13 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
             return interpret_solver_answer(process)
 
 
+def run_solver(solver: Union[Solver, IPASIRSolver]) -> bool:
+    result = solver.solve()
+    if result is None:
+        raise RuntimeError('Solver stopped without an answer')
+    return result
+
+
 T = TypeVar('T')
 NestedArray = Union[T, List['NestedArray']]
 
@@ -409,7 +416,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                if s.solve():
+                if run_solver(s):
                     return self.parse_solution(s.get_model())
                 else:
                     return None
@@ -428,7 +435,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                while s.solve():
+                while run_solver(s):
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-- 
2.43.0


From 4d6ddc232cf8e52590b06274ef9976d90412fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:41 +0000
Subject: [PATCH 19/33] fix: cells in the older JSON formats are read with
 directions, not bare numbers

---
 factorio_sat/blueprint.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index eb672c0..0a07f77 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -202,20 +202,24 @@ def import_blueprint(data: Any):
     return tiles
 
 
+def read_direction(value: Optional[int]) -> Optional[Direction]:
+    return None if value is None else Direction(value)
+
+
 def read_tile(item) -> BaseTile:
     if 'tile' in item:
         return BaseTile.read(item['tile'])
 
-    input_direction = item['input_direction']
-    output_direction = item['output_direction']
+    input_direction = read_direction(item['input_direction'])
+    output_direction = read_direction(item['output_direction'])
     if 'is_empty' in item:
         if item['is_empty']:
             tile = EmptyTile()
         elif item['is_belt']:
             if input_direction is None:
-                input_direction = item['colour_direction']
+                input_direction = read_direction(item['colour_direction'])
             if output_direction is None:
-                output_direction = item['colour_direction']
+                output_direction = read_direction(item['colour_direction'])
 
             assert input_direction is not None or output_direction is not None
 
@@ -226,11 +230,11 @@ def read_tile(item) -> BaseTile:
             tile = UndergroundBelt(output_direction, False)
         elif item['is_splitter'] is not None and not item['is_splitter'] is False:
             try:
-                tile = Splitter(item['colour_direction'], item['is_splitter'])
+                tile = Splitter(read_direction(item['colour_direction']), item['is_splitter'])
             except KeyError:
-                tile = Splitter(item['splitter_direction'], item['splitter_side'])
+                tile = Splitter(read_direction(item['splitter_direction']), item['splitter_side'])
         elif item['is_inserter'] is not None:
-            tile = Inserter(item['inserter_direction'], item['is_inserter'])
+            tile = Inserter(read_direction(item['inserter_direction']), item['is_inserter'])
         elif item['is_assembling_machine']:
             tile = AssemblingMachine(item['assembling_x'], item['assembling_y'])
         else:
-- 
2.43.0


From 6afa444f6f06f07f84ee000dd8fa5df0fc832eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:01 +0000
Subject: [PATCH 20/33] fix: decoding a blueprint without entities gives the
 empty grid

---
 factorio_sat/blueprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 0a07f77..78a23cb 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -299,7 +299,7 @@ def main():
     elif args.mode == 'decode':
         while True:
             decoded = decode_blueprint(input())
-            tiles = np.vectorize(write_tile)(import_blueprint(decoded))
+            tiles = np.vectorize(write_tile, otypes=[object])(import_blueprint(decoded))
             print(json.dumps(tiles.tolist()))
     else:
         assert False
-- 
2.43.0


From a0c116994503fdbb257cb0d565c68b4e9390a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:23 +0000
Subject: [PATCH 21/33] fix: parse_network follows belts of any length

---
 factorio_sat/network.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index c840118..ea500a4 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -561,23 +561,24 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             raise RuntimeError(f'Unknown tile type: {tile}')
 
     def trace(colour: int, pos: Tuple[int, int], is_forward: bool):
-        if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
-            return
+        while True:
+            if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
+                return
 
-        tile = tiles[pos]
-        if tile == EmptyTile():
-            return
+            tile = tiles[pos]
+            if tile == EmptyTile():
+                return
 
-        if isinstance(tile, Splitter):
-            return
+            if isinstance(tile, Splitter):
+                return
 
-        if colour_mapping[pos] is not None:
-            assert colour_mapping[pos] == colour
-            return
+            if colour_mapping[pos] is not None:
+                assert colour_mapping[pos] == colour
+                return
 
-        colour_mapping[pos] = colour
+            colour_mapping[pos] = colour
 
-        trace(colour, next_tile(pos, is_forward), is_forward)
+            pos = next_tile(pos, is_forward)
 
     for x, row in enumerate(tiles):
         for y, tile in enumerate(row):
-- 
2.43.0


From 1cd3df25c66d7bba794152769fddc3e26a0b8a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:25 +0000
Subject: [PATCH 22/33] fix: break_horisontal_symmetry compares with the
 mirrored, flow-reversed layout

---
 factorio_sat/optimisations.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index d3bdb64..cfea0e4 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -441,11 +441,15 @@ def break_horisontal_symmetry(grid: Grid, min_x: int = 0, max_x: Optional[int] =
             start_tile = grid.get_tile_instance(min_x + dx, y)
             end_tile = grid.get_tile_instance(max_x - dx, y)
 
-            start += start_tile.input_direction + start_tile.output_direction
-            end += end_tile.output_direction + end_tile.input_direction
+            # The end is seen mirrored and with the flow reversed, so vertical directions are swapped
+            start += start_tile.input_direction[::2] + start_tile.output_direction[::2]
+            end += end_tile.output_direction[::2] + end_tile.input_direction[::2]
 
-            start += start_tile.type
-            end += end_tile.type
+            start += [start_tile.is_belt, start_tile.is_empty, start_tile.is_splitter, start_tile.is_underground_in, start_tile.is_underground_out]
+            end += [end_tile.is_belt, end_tile.is_empty, end_tile.is_splitter, end_tile.is_underground_out, end_tile.is_underground_in]
+
+            start += start_tile.input_direction[1::2] + start_tile.output_direction[1::2]
+            end += end_tile.output_direction[:0:-2] + end_tile.input_direction[:0:-2]
 
     grid.clauses += break_symmetry(start, end, grid.allocate_variable)
 
-- 
2.43.0


From 4d3a1dcbba8fadb25c21d1b0d02b5cb5f331abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:38 +0000
Subject: [PATCH 23/33] fix: saving progress keeps the results of networks that
 are not in the network folder

---
 factorio_sat/calculate_optimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 13e8831..6331bbd 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -267,6 +267,7 @@ def main():
     for file in os.listdir(base_path):
         stores.append(NetworkSolutionStore(os.path.join(base_path, file)))
 
+    data = {}
     try:
         with open(result_file) as f:
             data = json.load(f)
@@ -279,7 +280,7 @@ def main():
         pass
 
     def save_progress():
-        data = {}
+        # Results of networks that are currently not in the network folder stay in the database
         for store in stores:
             data[store.network_name] = store.to_json()
         # Replace the database in one step, so that an interrupted run never leaves a truncated file behind
-- 
2.43.0


From 02335591f13e1b973912ae3d1716cbde16aeb57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:36 +0000
Subject: [PATCH 24/33] fix: the crosstable heading starts on its own line

---
 factorio_sat/calculate_optimal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 6331bbd..1d74b6d 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -195,6 +195,8 @@ def export_crosstable(stores: List[NetworkSolutionStore], crosstable_filename: s
                 preamble += line
     except FileNotFoundError:
         pass
+    if len(preamble) != 0 and not preamble.endswith('\n'):
+        preamble += '\n'
 
     with open(crosstable_filename, 'w') as f:
         f.write(preamble)
-- 
2.43.0


From fb0c6d89680a97cda18dc13382de96825ea70142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 25/33] fix: render inserters (Direction has no arithmetic with
 int)

---
 factorio_sat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index 34fdd2e..fe79f9e 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -153,7 +153,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
         if layer == RenderLayer.BOTTOM:
             glPushMatrix()
             glTranslatef(-(8 + 1.5)/32, (8 - (7.5 - 1))/32, 0)
-            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction) % 4, 0)
+            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction.value) % 4, 0)
             glPopMatrix()
         elif layer == RenderLayer.TOP:
             # Good enough
@@ -176,7 +176,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
             if t < 0:
                 interior_angle *= -1
 
-            base_angle = 90 * (2 - tile.direction) + interior_angle
+            base_angle = 90 * (2 - tile.direction.value) + interior_angle
 
             glPushMatrix()
 
-- 
2.43.0


From d4cc958a060fe22bcfd3bd87487b53d0c8cb9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 26/33] fix: render --show-raw: index into the selected
 attribute, not the whole cell

---
 factorio_sat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index fe79f9e..db63c1c 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -350,7 +350,7 @@ def render_attributes(solution, font, names: List[str]):
                 sub_item = item
                 for piece in name.split('.'):
                     try:
-                        sub_item = item[int(piece)]
+                        sub_item = sub_item[int(piece)]
                         continue
                     except ValueError:
                         pass
-- 
2.43.0


From 861fb8197491f72c237dbf3caed7a0e421da06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 27/33] fix: network render connects the ends of networks that
 feed back their input or output colour

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index ea500a4..7095675 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -100,7 +100,7 @@ def plot(network, filename=None, engine='dot'):
     for colour, occurences in colour_occurences.items():
         output_count = sum(side == OUTPUT_SIDE for side, _ in occurences)
         input_count = sum(side == INPUT_SIDE for side, _ in occurences)
-        if input_count == 1 and output_count == 1:
+        if input_count == 1 and output_count == 1 and colour not in (network_input_colour, network_output_colour):
             node_a, node_b = [colour for _, colour in sorted(occurences)]
             g.edge(str(node_a), str(node_b), label=str(colour))
         else:
-- 
2.43.0


From 7ceb9d144255a120286c8d0eefa2d62a353fe066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 28/33] fix: network render only writes the picture (it
 overwrote and deleted the file of the same name without extension)

---
 factorio_sat/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 7095675..ecdb4b4 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -117,8 +117,10 @@ def plot(network, filename=None, engine='dot'):
     if filename is None:
         g.render('Network', format='png', view=True, cleanup=True)
     else:
-        prefix, ext = path.splitext(filename)
-        g.render(prefix, format=ext[1:], view=False, cleanup=True)
+        _, ext = path.splitext(filename)
+        picture = g.pipe(format=ext[1:])
+        with open(filename, 'wb') as file:
+            file.write(picture)
 
 
 def remap_colours(network, colour_map):
-- 
2.43.0


From 59fb93d08c42f12c8256b2548a7b9515a83e587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 29/33] fix: simplify keeps two splitters joined by a single
 belt instead of failing

---
 factorio_sat/network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index ecdb4b4..abc869e 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -228,8 +228,7 @@ def simplify(network, allow_bottleneck=False):
                         continue
                     input_a, output_a, input_b, output_b = [set(item) - set([None]) for item in node_a + node_b]
 
-                    if set(output_a) == set(input_b):
-                        assert len(output_a) != 1 and len(input_b) != 1
+                    if len(output_a) == 2 and set(output_a) == set(input_b):
                         network = copy.deepcopy(network)
                         network.remove(node_a)
 
-- 
2.43.0


From e220015e4a62a5cc7c47ffc4d7f1ba820741ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 30/33] fix: optimise_colours on networks whose best cost is
 one

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index abc869e..1ecc701 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -475,7 +475,7 @@ def optimise_colours(network, solver='g3'):
 
     model = None
     with Solver(name=solver, bootstrap_with=clauses) as s:
-        for cost in reversed(range(1, starting_cost)):
+        for cost in reversed(range(starting_cost)):
             if s.solve():
                 model = s.get_model()
             else:
-- 
2.43.0


From 58e1416af3af399941dc6a28cc723dbdacfaa261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 31/33] fix: optimise_colours on networks without anything to
 optimise

---
 factorio_sat/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 1ecc701..80f3e04 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -409,6 +409,8 @@ def calculate_cost(network):
 
 def optimise_colours(network, solver='g3'):
     starting_cost = calculate_cost(network)
+    if starting_cost == 0:
+        return network
 
     input_colours = set()
     output_colours = set()
-- 
2.43.0


From b5a2935e2eff419e8af605d69b16d0332f44103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 32/33] fix: optimise_colours on networks with large colour
 numbers

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 80f3e04..ba00cd4 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -477,7 +477,7 @@ def optimise_colours(network, solver='g3'):
 
     model = None
     with Solver(name=solver, bootstrap_with=clauses) as s:
-        for cost in reversed(range(starting_cost)):
+        for cost in reversed(range(min(starting_cost, 1 << result_bits))):
             if s.solve():
                 model = s.get_model()
             else:
-- 
2.43.0


From 2e15ffb67d2859a42d1ab4734dedf45f2f2e378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:01 +0000
Subject: [PATCH 33/33] fix: get_popcount of a single bit, needed by
 optimise_colours

---
 factorio_sat/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/util.py b/factorio_sat/util.py
index be0253d..0a80e84 100644
--- a/factorio_sat/util.py
+++ b/factorio_sat/util.py
@@ -134,10 +134,12 @@ def increment_number(input: List[LiteralType], output: List[LiteralType]):
 
 def get_popcount(bits: List[LiteralType], output: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     assert bin_length(len(bits) + 1) == len(output)
-    assert len(bits) > 1
+    assert len(bits) > 0
 
     clauses = []
-    if len(bits) <= 3:
+    if len(bits) == 1:
+        clauses += set_numbers_equal(bits, output)
+    elif len(bits) <= 3:
         carry_in = bits[2] if len(bits) == 3 else None
         clauses += add_numbers([bits[0]], [bits[1]], output, allocator, carry_in)
     else:
-- 
2.43.0

