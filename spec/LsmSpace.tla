------------------------------ MODULE LsmSpace ------------------------------
(* How many tables a configuration allows for a number of distinct keys once every due compaction ran. *)
EXTENDS Integers
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Levels(_, _, _)
\* level i + 1 exists only if level i can overflow: c = the most tables level i may hold
Levels(c, gf, keys) == IF keys > c THEN c + Levels(c * gf, gf, keys) ELSE keys
LeveledTables(mc, mi, gf, keys) == mc + Levels(mi, gf, keys)
RECURSIVE Buckets(_, _, _)
\* each bucket starts at least half as large again as the one before
Buckets(num, den, ratio) == IF num >= ratio * den THEN 1 ELSE 1 + Buckets(num * 3, den * 2, ratio)
SizeTieredTables(mc, keys) == (mc + 1) * Buckets(1, 1, 8 * keys)
=============================================================================
