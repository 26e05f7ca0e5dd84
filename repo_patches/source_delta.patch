From 72fa4df1e8a75ee1026432389c454248a876a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 01/16] fix: sign extend reads served from buffered bits

---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..480cb21 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and (result & (1 << bits - 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From 366c2d582b92af57be67732e4f4a091346a64eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 02/16] fix: align skips the lead byte after a mid-byte seek

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 480cb21..6ce9d90 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -56,6 +56,9 @@ class BitIO:
         """Seeks the stream forward to the nearest byte boundary. This does
         not require :attr:`data` to support seek itself.
         """
+        if self._bits == -1:
+            # A mid-byte seek left the lead byte unread, skip over it.
+            self.data.seek(1, io.SEEK_CUR)
         self._tell += self._bits_left
         self._bits = 0
         self._bits_left = 0
-- 
2.43.0


From a90f8f5687e089daa5abc4ac5ea95eeb3f35aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 03/16] fix: flush moves the writer to the byte boundary

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 6ce9d90..11883c7 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -240,6 +240,9 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            self._tell += self._bits_left
+            self._bits = 0
+            self._bits_left = 0
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From 25881c6990b4c99725e42422a80fb0edec3b8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 04/16] fix: use the y offset of the left matrix in products

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From e814f9862e09cf609029ee4370d0c82fa6eb93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 05/16] fix: calculate_max_id never returns less than its lower
 bound

---
 dustmaker/level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..a2601ac 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -252,8 +252,7 @@ class Level:
         """
         init = 100 if reset else self._next_id - 1
 
-        # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max((init, *self.props, *self.entities))
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From 0f07df0d3c9ef7dee71b43d8d3d6b64cecc22a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 06/16] fix: merge schemas of arrays of arrays

---
 dustmaker/cmd/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..e0d3358 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,8 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From 8cbd298ef19b7e5fe58f008a61050f73f78a0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 07/16] fix: update variables of levels without regions

---
 dustmaker/cmd/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index e0d3358..0f5717a 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -209,7 +209,7 @@ class Variables(CliUtility):
 
         with DFWriter(open(args.object, "wb")) as writer:
             if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+                assert level is not None and region_data is not None
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
-- 
2.43.0


From 34c430cf969417d17017f8081b6d95b36cb64173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 08/16] fix: accept every fog sublayer

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..cbda069 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From 7cacd7a6e4f47b661cdaa456f5826159c8179275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 09/16] fix: make tiles, structs and arrays hashable

---
 dustmaker/tile.py     | 4 ++--
 dustmaker/variable.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..ac161f2 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -34,7 +34,7 @@ class TileSide(IntEnum):
     RIGHT = 3
 
 
-@dataclass
+@dataclass(unsafe_hash=True)
 class TileEdgeData:
     """Data class for data stored on each tile edge. Many attributes are stored
     as pairs of data to correspond to the two corners of the tile edge. These
@@ -180,7 +180,7 @@ class Tile:
         return (
             self.shape,
             self.tile_flags,
-            self.edge_data,
+            tuple(self.edge_data),
             self.sprite_set,
             self.sprite_tile,
             self.sprite_palette,
diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..e79583b 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -179,6 +179,9 @@ class VariableStruct(Variable):
             assert isinstance(key, str) and isinstance(val, Variable)
             val._assert_types()
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
 
 class VariableArray(Variable, collections.abc.MutableSequence):
     """Represents an array variable. Arrays are stored a bit differently
@@ -261,3 +264,6 @@ class VariableArray(Variable, collections.abc.MutableSequence):
         for elem in self.value[1]:
             assert isinstance(elem, self.value[0])
             elem._assert_types()
+
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
-- 
2.43.0


From 1e306ae7f7e8dbeb9c4f0d9cdcf86a8b59974f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 10/16] fix: remap the level list of custom score books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index cbda069..b31a1ae 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the level list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From 9764ad91ff33e362f5003ba1108be0be77c9a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 11/16] fix: keep tiles aligned with props under flips and
 rotations

---
 dustmaker/level.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index a2601ac..33389c5 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -301,7 +301,11 @@ class Level:
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # The tile's square can be spanned from any of its corners after
+                # a flip or rotation, its position is the top left one.
+                ax, ay = mat.sample(x * 48, y * 48)
+                bx, by = mat.sample(x * 48 + 48, y * 48 + 48)
+                tx, ty = min(ax, bx), min(ay, by)
 
                 yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
 
-- 
2.43.0


From d2876f4bafe3476797d88f0cdec9abd8d9dbed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 12/16] fix: upscale backdrop tiles

---
 dustmaker/level.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 33389c5..fe17ce8 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -365,11 +365,14 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is None:
+                continue
+            level.tiles = {
+                (layer, x + dx, y + dy): ntile
+                for (layer, x, y), tile in level.tiles.items()
+                for dx, dy, ntile in tile.upscale(factor)
+            }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From 1b2e34987b580152b53bed2b351247e848bfb346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 13/16] fix: keep allocated ids unused after a merge

---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index fe17ce8..492dfd6 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -276,6 +276,8 @@ class Level:
         self.entities.update(copy.deepcopy(other_level.entities))
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
+        if self.parent is None:
+            self.calculate_max_id(reset=False)
 
     def transform(self, mat: TxMatrix) -> None:
         """Transforms the level with the given affine transformation matrix.  Note
-- 
2.43.0


From 4c1caca432b48c7060d4607ffe84e73c0b225d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 14/16] fix: translate by the requested pixels when upscaling

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..6e7af6f 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # Add in the translations
+        level.translate(args.translate_x, args.translate_y)
+
         with DFWriter(open(args.output_level, "wb")) as writer:
             writer.write_level(level)
 
-- 
2.43.0


From 6d5679f11ff708ffe8e29d76f56896dcfe0823d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 15/16] fix: round edge cap angles down

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 492dfd6..7497a78 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -572,7 +572,8 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Round down, ignoring floating point noise
+                    angle = -int(round(delta_angle * 180 / math.pi / 2, 6))
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From 5404448357c119bbe91798b67b47c795de343a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 16/16] fix: prefer the joining edge that turns away from the
 tile

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 7497a78..2c16816 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -536,7 +536,7 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0

