From 9400998b038351a69ea1dbfa9efed4b6f4522530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 01/21] fix: let 64-bit LCRNG jump and const_jump take
 np.uint64 distances

jump() raised TypeError for np.uint64 without numba, and const_jump() raised
it in both modes, because np.uint64 >> int is not defined.
---
 numba_pokemon_prngs/lcrng/lcrng64.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..8c5dd69 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,18 +110,20 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+            adv = int(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
-- 
2.43.0


From 829e75521085350e381961c41fc3e2beb83daeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 02/21] fix: bound 1 in the reciprocal division distribution

The divisor 0x10000 wrapped to 0 in 16 bits: ZeroDivisionError with numba, and
a divide warning without it.
---
 numba_pokemon_prngs/lcrng/lcrng32.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..e337075 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,10 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                # 32-bit as the divisor is 0x10000 for a maximum of 1
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                 )
 
             def const_rand(
@@ -172,8 +174,10 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    # 32-bit as the divisor is 0x10000 for a maximum of 1
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                     )
 
                 return rand_func
-- 
2.43.0


From 9f088f2571f885f776df71e9ec000acd563549a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 03/21] fix: build_rnglist for any state_type and for inherited
 next functions

The list was always typed uint32 with numba (16- and 64-bit lists did not
compile), and without numba functions of a parent class were not found.
---
 numba_pokemon_prngs/rng_list.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..b516621 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,13 +46,13 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From ba393641ccb3610059d44fffc873079ba376eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 04/21] fix: bare @optional_njit without numba

It replaced the function by its inner wrap(), so everything in gen3 and
get_info_table_3 was unusable with NPP_USE_NUMBA=FALSE.
---
 numba_pokemon_prngs/compilation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..a2f5061 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -117,8 +117,8 @@ else:
         return np.ndarray
 
     def return_type(output_type, input_types):
-        """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        """Signatures are unused outside of numba"""
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,9 +167,11 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
-
     def wrap(func):
         return func
 
+    # @optional_njit w/o arguments provided
+    if callable(signature_or_function):
+        return wrap(signature_or_function)
+
     return wrap
-- 
2.43.0


From 0813f97ba08bd60f17511d02e817cafd35c70d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 05/21] fix: advance the search rng past failed rock smash
 encounters

The continue skipped rng.next(), so from the first failed encounter check on
every advance was tested with the same rng state, and splitting a search into
windows changed its results.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..34d89dd 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -78,6 +78,7 @@ class WildGenerator3:
         rng.jump(initial_advances + delay)
         for advance in range(initial_advances, initial_advances + max_advances):
             go.re_init(rng.seed)
+            rng.next()
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
@@ -144,6 +145,4 @@ class WildGenerator3:
 
             states.append(state)
 
-            rng.next()
-
         return states
-- 
2.43.0


From d347ba326d035f4fc9d157e1cfe42522973d9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 06/21] fix: cute charm applies to species of both genders only

The condition was inverted: it was ignored for them, and for single gender and
genderless species the search for a matching PID never ended.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 34d89dd..684138e 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -95,9 +95,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 09640c2e57dc97b8efded2d842b838e74c4607a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 07/21] fix: integer widths of the gen 3 wild generator without
 numba

The encounter rate and hidden power wrapped at 8 bits, the high half of the PID
was always 0, and the hidden power strength was not an integer.
---
 numba_pokemon_prngs/gen3/state.py            | 14 ++++++++------
 numba_pokemon_prngs/gen3/wild_generator_3.py |  9 ++++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..4632213 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -36,8 +36,8 @@ class State:
         """Update stats on initialization"""
         self.gender = get_gender(self.pid, info.gender_ratio)
         self.nature = self.pid % 25
-        hidden_power_val = np.uint8(0)
-        hidden_power_strength_value = np.uint8(0)
+        hidden_power_val = 0
+        hidden_power_strength_value = 0
         ec_index = self.pid % np.uint8(6)
         char_index = ec_index
         max_iv = np.uint8(0)
@@ -51,10 +51,12 @@ class State:
         )
 
         for i in range(6):
-            hidden_power_val += (self.ivs[ORDER[i]] & 1) << i
-            hidden_power_strength_value += ((self.ivs[ORDER[i]] >> 1) & 1) << i
+            hidden_power_val += int(self.ivs[ORDER[i]] & 1) << i
+            hidden_power_strength_value += int((self.ivs[ORDER[i]] >> 1) & 1) << i
 
-            stat = np.uint16(((2 * base_stats[i] + self.ivs[i]) * self.level) // 100)
+            stat = np.uint16(
+                ((2 * int(base_stats[i]) + int(self.ivs[i])) * int(self.level)) // 100
+            )
             if i == 0:
                 self.stats[i] = stat + self.level + 10
             else:
@@ -66,7 +68,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 684138e..b1c5b04 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -69,7 +69,10 @@ class WildGenerator3:
             self.game,
             self.personal_info_table,
         )
-        rate = encounter_area_3.get_encounter_rate(encounter_area, self.encounter) * 16
+        rate = (
+            int(encounter_area_3.get_encounter_rate(encounter_area, self.encounter))
+            * 16
+        )
         rse_safari = encounter_area_3.is_rse_safari_zone(encounter_area, self.game)
         rse = self.game & (Game.RUBY | Game.SAPPHIRE | Game.EMERALD)
         cute_charm = False
@@ -108,13 +111,13 @@ class WildGenerator3:
             else:
                 search_nature = rand_25(go)
 
-            pid = go.next_u16() | (go.next_u16() << 16)
+            pid = int(go.next_u16()) | (int(go.next_u16()) << 16)
             while (
                 ((pid % 25) != search_nature)
                 or (cute_charm and not self.cute_charm_check(pid, info))
                 or (species == 201 and not unown_check(pid, form))
             ):
-                pid = go.next_u16() | (go.next_u16() << 16)
+                pid = int(go.next_u16()) | (int(go.next_u16()) << 16)
 
             if self.method == Method.METHOD_2:
                 go.next()
-- 
2.43.0


From 047ecc7f2c5542ef6f35a73d9f69e850556fb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 08/21] fix: nature modifiers of speed, special attack and
 special defense

Natures count speed before the special stats, stats count it last, so half of
the natures modified the wrong stats.
---
 numba_pokemon_prngs/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..f910238 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -45,10 +45,13 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     return np.uint64((val << (np.uint8(64) - count)) | (val >> count))
 
 
+# natures are ordered by attack, defense, speed, special attack, special defense
+# while stats are ordered by attack, defense, special attack, special defense, speed
+NATURE_STAT_ORDER = (0, 1, 4, 2, 3)
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From e8b72e5eba5666cc3a774264a906f4bff58b18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 09/21] fix: LA slot choice with enum arguments and without
 numba

calc_slot raised AttributeError without numba, where slots is no recarray, and
did not compile for LATime/LAWeather members with numba.
---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..71f42f7 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -43,9 +43,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, np.uint8(time)]
+            * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From a08a74535f53034e2218e31401a81712e7ca06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 10/21] fix: do not use incomplete or damaged cache entries

A process killed or out of disk space while writing an entry left a truncated
pickle behind, which made every later import of data.encounter fail, as did
reading an entry another process was still writing. Damaged data could also be
returned as encounter data.
---
 .../data/encounter/__init__.py                | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..0d1e315 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -2,6 +2,7 @@
 
 import re
 import json
+import hashlib
 import pickle
 import os
 import pathlib
@@ -24,28 +25,37 @@ from ...enums import Game, LAArea
 from ...compilation import TypedDict
 from ...fnv import fnv1a_64
 
+def entry_digest(key, data: bytes) -> bytes:
+    """Digest of a cache entry's data and the (hashed) key it is stored for"""
+    digest = key.copy()
+    digest.update(data)
+    return digest.digest()
+
 def pickle_cached(filename: str, encode = None, decode = None):
-    """Cache results of a function next to the executable"""
+    """Cache results of a function in the user's cache directory
+
+    The pickled result is followed by a digest of it and of the name it is stored under,
+    an entry that is incomplete or damaged is computed again"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
     filename = cache_dir + "/" + filename
     pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
     def wrapper(function):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
+            key = hashlib.sha256(os.path.basename(pkl_filename).encode())
             if os.path.exists(pkl_filename):
                 with open(pkl_filename, "rb") as pickled_file:
                     data = pickled_file.read()
-                    if data:
-                        data = pickle.loads(data)
-                        if decode is not None:
-                            return decode(data)
-                        return data
+                data, digest = data[: -key.digest_size], data[-key.digest_size :]
+                if digest == entry_digest(key, data):
+                    data = pickle.loads(data)
+                    if decode is not None:
+                        return decode(data)
+                    return data
             result = function(*args, **kwargs)
+            data = pickle.dumps(result if encode is None else encode(result))
             with open(pkl_filename, "wb+") as pickled_file:
-                if encode is not None:
-                    pickled_file.write(pickle.dumps(encode(result)))
-                else:
-                    pickle.dump(result, pickled_file)
+                pickled_file.write(data + entry_digest(key, data))
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From 3954d4df6da6d67e042800c8f82ad9b3f7df1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 11/21] fix: a cache that can not be used does not prevent
 loading data

Any error of the cache directory (read-only or missing home, no space left, an
entry removed between exists() and open()) made importing data.encounter fail.
---
 .../data/encounter/__init__.py                | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 0d1e315..0e25d10 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -35,27 +35,36 @@ def pickle_cached(filename: str, encode = None, decode = None):
     """Cache results of a function in the user's cache directory
 
     The pickled result is followed by a digest of it and of the name it is stored under,
-    an entry that is incomplete or damaged is computed again"""
+    an entry that is missing, incomplete or damaged is computed again
+    A cache that can not be read or written only costs the time to compute its entries"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
     filename = cache_dir + "/" + filename
-    pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
+    try:
+        pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
+    except OSError:
+        pass
     def wrapper(function):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
             key = hashlib.sha256(os.path.basename(pkl_filename).encode())
-            if os.path.exists(pkl_filename):
+            try:
                 with open(pkl_filename, "rb") as pickled_file:
                     data = pickled_file.read()
-                data, digest = data[: -key.digest_size], data[-key.digest_size :]
-                if digest == entry_digest(key, data):
-                    data = pickle.loads(data)
-                    if decode is not None:
-                        return decode(data)
-                    return data
+            except OSError:
+                data = b""
+            data, digest = data[: -key.digest_size], data[-key.digest_size :]
+            if digest == entry_digest(key, data):
+                data = pickle.loads(data)
+                if decode is not None:
+                    return decode(data)
+                return data
             result = function(*args, **kwargs)
             data = pickle.dumps(result if encode is None else encode(result))
-            with open(pkl_filename, "wb+") as pickled_file:
-                pickled_file.write(data + entry_digest(key, data))
+            try:
+                with open(pkl_filename, "wb+") as pickled_file:
+                    pickled_file.write(data + entry_digest(key, data))
+            except OSError:
+                pass
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From 5b08d33c20619047456f12bbebfbb888d151b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 12/21] fix: cache directories with braces in their path

The whole path was used as the format string of the entry's name.
---
 numba_pokemon_prngs/data/encounter/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 0e25d10..54ed592 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -38,15 +38,15 @@ def pickle_cached(filename: str, encode = None, decode = None):
     an entry that is missing, incomplete or damaged is computed again
     A cache that can not be read or written only costs the time to compute its entries"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
-    filename = cache_dir + "/" + filename
     try:
         pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
     except OSError:
         pass
     def wrapper(function):
         def wrapped(*args, **kwargs):
-            pkl_filename = filename.format(*args, **kwargs)
-            key = hashlib.sha256(os.path.basename(pkl_filename).encode())
+            name = filename.format(*args, **kwargs)
+            pkl_filename = os.path.join(cache_dir, name)
+            key = hashlib.sha256(name.encode())
             try:
                 with open(pkl_filename, "rb") as pickled_file:
                     data = pickled_file.read()
-- 
2.43.0


From 76ec1011511a454bd418c439c0e205da41767c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 13/21] fix: do not use cache entries made from other resource
 files

After an upgrade that changes the encounter resources (or with two
installations sharing a home) the data of the other version was returned.
---
 .../data/encounter/__init__.py                | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 54ed592..1582d30 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -20,7 +20,7 @@ from ..fbs.encounter_la import (
     NewHugeOutbreakGroupTable8a
 )
 from .. import CONSTANT_CASE_SPECIES_EN
-from ...resources import encount
+from ...resources import encount, txt
 from ...enums import Game, LAArea
 from ...compilation import TypedDict
 from ...fnv import fnv1a_64
@@ -31,11 +31,13 @@ def entry_digest(key, data: bytes) -> bytes:
     digest.update(data)
     return digest.digest()
 
-def pickle_cached(filename: str, encode = None, decode = None):
+def pickle_cached(filename: str, resources, encode = None, decode = None):
     """Cache results of a function in the user's cache directory
 
-    The pickled result is followed by a digest of it and of the name it is stored under,
-    an entry that is missing, incomplete or damaged is computed again
+    resources(*args) gives the (package, file name) of each resource the result is made from
+    The pickled result is followed by a digest of it, of the name it is stored under and of
+    the resources, an entry that is missing, incomplete, damaged or made from other versions
+    of the resources is computed again
     A cache that can not be read or written only costs the time to compute its entries"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
     try:
@@ -47,6 +49,8 @@ def pickle_cached(filename: str, encode = None, decode = None):
             name = filename.format(*args, **kwargs)
             pkl_filename = os.path.join(cache_dir, name)
             key = hashlib.sha256(name.encode())
+            for resource in resources(*args, **kwargs):
+                key.update(hashlib.sha256(pkg_resources.read_binary(*resource)).digest())
             try:
                 with open(pkl_filename, "rb") as pickled_file:
                     data = pickled_file.read()
@@ -204,7 +208,13 @@ def clean_map_string(map_string: str) -> str:
     return " ".join(strings)
 
 
-@pickle_cached("encounter_3_{}.pkl")
+@pickle_cached(
+    "encounter_3_{}.pkl",
+    resources=lambda game: (
+        (encount, ENCOUNTER_DATA_FILES[game]),
+        (txt, "species_en.txt"),
+    ),
+)
 def load_encounter_3(game: Game) -> tuple[tuple[str], np.recarray]:
     """Load Gen 3 encounter data"""
     with pkg_resources.open_text(
@@ -334,6 +344,11 @@ def encounter_tables_la_encode(typed_dict):
 
 @pickle_cached(
     "encounter_tables_la_{}.pkl",
+    resources=lambda map_area: (
+        (encount.la, f"ha_area{map_area:02d}_encounter.bin"),
+        (encount.la, "poke_encount.bin"),
+        (encount.la, "poke_misc.bin"),
+    ),
     encode=encounter_tables_la_encode,
     decode=encounter_tables_la_decode
 )
-- 
2.43.0


From ec79610b1b7b3d746f25036262c003f5c7e70fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 14/21] fix: 32-bit results of the tiny twister with numba

---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..298e7a3 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,7 +75,8 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        # numba would keep the carry of the sum
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-- 
2.43.0


From 1d63b4bfd3a2f80b888faa3ae71063cdc779ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 15/21] fix: cached-result lists of more than 65536 results
 with numba

---
 numba_pokemon_prngs/rng_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index b516621..b985dbc 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -54,8 +54,8 @@ def build_rnglist(
         {
             "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
-            "head": np.uint16,
-            "pointer": np.uint16,
+            "head": np.uint32,
+            "pointer": np.uint32,
         }
     )
     class SpecificRNGList:
-- 
2.43.0


From 999a97833d56d1b15b563ed321858a8e39a09db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 16/21] fix: wild generator advances whose sums exceed 32 bits

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index b1c5b04..876ca59 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -78,8 +78,10 @@ class WildGenerator3:
         cute_charm = False
         rng = PokeRNGMod(seed)
         go = PokeRNGMod(0)
-        rng.jump(initial_advances + delay)
-        for advance in range(initial_advances, initial_advances + max_advances):
+        # the sums may exceed 32 bits, jump distances may not
+        rng.jump((int(initial_advances) + int(delay)) & 0xFFFFFFFF)
+        last_advance = int(initial_advances) + int(max_advances)
+        for advance in range(int(initial_advances), last_advance):
             go.re_init(rng.seed)
             rng.next()
 
-- 
2.43.0


From 6121c8ba7647d95dbcaa847087ebbeeb0e371e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 17/21] fix: gen 3 slot tables off by one at the end of every
 slot

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..4209169 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -15,10 +15,11 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
     """Compute encounter slot lookup table"""
     table = np.empty(100, dtype=np.uint8)
 
-    r_val = 99 if greater else 0
+    start = 99 if greater else 0
     for i, range_val in enumerate(ranges):
-        for r_val in range(r_val, range_val, -1 if greater else 1):
+        for r_val in range(start, range_val, -1 if greater else 1):
             table[r_val] = i
+        start = range_val
 
     return table
 
-- 
2.43.0


From 75c1b4ad23702dbaf35be5b563670bba45eb97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 18/21] fix: twister advances near the top of their 32-bit
 range in pure Python

The index was added (and the count doubled) in 32 bits, so the longest
advances wrapped around and skipped whole refills without an error.
---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 8 ++++----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..d71ffb8 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,11 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # the sum does not fit in 32 bits for the longest advances
+        adv = np.uint64(adv) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..d989da7 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,11 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # neither product nor sum fits in 32 bits for the longest advances
+        adv = (np.uint64(adv) * np.uint64(2)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From 063c612626dc562b9a4d07c1ab00a6e9c95d6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 19/21] fix: give Platinum its own stat table

Diamond had the same bit as Platinum and the Platinum table was never used.
---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 numba_pokemon_prngs/enums/game.py             | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From 5519ff4b82f9898862ea2408e13be28f46f3d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 20/21] fix: a failed read of a stat table was not reported

np.fromfile ignores errors and leaves the rest of the array uninitialized.
---
 numba_pokemon_prngs/data/personal/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index b0bce37..2255491 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -27,12 +27,9 @@ from ...compilation import optional_njit
 def load_personal(identifier: str, personal_info: PersonalInfoProtocol) -> np.recarray:
     """Load array of PersonalInfo from file"""
 
-    with pkg_resources.open_binary(
-        personal_bin_directory, f"personal_{identifier}"
-    ) as personal_info_file:
-        return np.fromfile(personal_info_file, dtype=personal_info.dtype).view(
-            np.recarray
-        )
+    # np.fromfile ignores errors and leaves what could not be read uninitialized
+    data = pkg_resources.read_binary(personal_bin_directory, f"personal_{identifier}")
+    return np.frombuffer(bytearray(data), dtype=personal_info.dtype).view(np.recarray)
 
 
 # PERSONAL_INFO_RB = load_personal("rb", PersonalInfo1)
-- 
2.43.0


From cd05f320a7f602a6f252630e6223dfa442ec4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 21/21] fix: report the land rate for grass and the fish rate
 for rods

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 4209169..189b174 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -195,9 +195,9 @@ def get_encounter_rate(
 ) -> np.uint8:
     """Get encounter rate"""
     if encounter_type == Encounter.GRASS:
-        return encounter_area.fish_rate
+        return encounter_area.land_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
     if encounter_type == Encounter.SURFING:
         return encounter_area.water_rate
-    return encounter_area.land_rate
+    return encounter_area.fish_rate
-- 
2.43.0

