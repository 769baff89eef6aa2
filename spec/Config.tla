------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* The performance switches: what may be set, and which answers may depend *)
(* on a setting.                                                           *)
(*                                                                         *)
(* The switches that matter depend on the device d the process runs on     *)
(* ("cpu", "gpu" or "tpu": accelerators bring their own kernels, and their *)
(* own switches).  A configuration gives each switch a value ("" means:    *)
(* not set).  The system comes up in a configuration iff every switch has  *)
(* a supported value; otherwise the first use of the part that reads a bad *)
(* switch is refused.  Once up, an answer is a function of the question    *)
(* alone - not of the settings, and not of the device - except that views  *)
(* and hashes of records with declared bit widths also depend on whether   *)
(* they are taken from the packed form.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

S(name, reads, good, bad) == [name |-> name, reads |-> reads, good |-> good, bad |-> bad]
\* reads: what reads the switch: import of the library, declaring a record class, a queue, a table, packing
DEDUPE == S("XTRUCTURE_HASHTABLE_DEDUPE_MODE", "import", <<"", "exact", "safe", "fast">>, <<"unsafe", "0", "exact,safe">>)
SORT == S("XTRUCTURE_HASHTABLE_SORT_BACKEND", "import", <<"", "lax_unstable", "lax_stable", "stable_argsort">>, <<"argsort", "on">>)
STABLE == S("XTRUCTURE_BGPQ_SORT_STABLE", "import", <<"", "false", "0", "true">>, <<>>)
REORDER == S("XTRUCTURE_BGPQ_VALUE_REORDER", "queue", <<"", "concat", "direct", "concat_gather">>, <<"scatter", "off", "on">>)
VALUE == S("XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND", "queue", <<"", "off", "auto", "kv">>, <<"gpu", "maybe">>)
VALUE_SPLIT == S("XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_SORTSPLIT", "queue", <<"", "auto", "off", "parallel">>, <<"yes!", "sort">>)
VALUE_BUFFER == S("XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_BUFFER", "queue", <<"", "kv_auto", "false", "on">>, <<"buffer", "2">>)
AUTO_MIN == S("XTRUCTURE_BGPQ_MERGE_VALUE_AUTO_MIN_BATCH", "queue", <<"", "1", "0", "1000">>, <<"many", "1.5">>)
AGG_MODE == S("XTRUCTURE_HASH_AGG_MODE", "declare", <<"", "packed", "raw", "auto">>, <<"both", "on">>)

TableOf(d) ==
    CASE d = "cpu" -> <<
            DEDUPE, SORT, STABLE,
            S("XTRUCTURE_BGPQ_MERGE_BACKEND", "import", <<"", "sort", "xla">>, <<"quick", "off">>),
            REORDER, VALUE, VALUE_SPLIT, VALUE_BUFFER, AUTO_MIN,
            S("XTRUCTURE_HASH_STREAM", "declare", <<"", "on", "off", "auto">>, <<"yes", "streaming">>),
            S("XTRUCTURE_HASH_STREAM_THRESHOLD_U32", "declare", <<"", "0", "1", "64", "100000">>, <<"-1", "big", "1e3">>),
            AGG_MODE,
            S("XTRUCTURE_AGG_BITPACK_PACK_BACKEND", "pack", <<"", "xla", "off", "auto">>, <<"cuda", "fast">>),
            S("XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE", "pack", <<"", "1", "16", "auto">>, <<>>) >>
      [] d = "gpu" -> <<
            DEDUPE, STABLE,
            S("XTRUCTURE_BGPQ_MERGE_BACKEND", "import", <<"", "parallel", "pallas", "sort">>, <<"quick", "kv">>),
            REORDER, VALUE, VALUE_SPLIT, VALUE_BUFFER, AUTO_MIN,
            S("XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE", "queue", <<"", "auto", "1", "4", "64">>, <<"0", "-4", "wide">>),
            S("XTRUCTURE_BGPQ_MERGE_UNROLL_MAX", "queue", <<"", "0", "1", "64">>, <<"-1", "all">>),
            S("XTRUCTURE_BGPQ_MERGE_NUM_WARPS", "queue", <<"", "4", "auto">>, <<"0", "some">>),
            S("XTRUCTURE_BGPQ_MERGE_NUM_STAGES", "queue", <<"", "2", "none">>, <<"-1", "2.5">>),
            S("XTRUCTURE_BGPQ_MERGE_VALUE_PACKING", "queue", <<"", "pad", "scalar", "shard", "auto">>, <<"none", "dense">>),
            S("XTRUCTURE_BGPQ_MERGE_VALUE_SCALAR_MAX", "queue", <<"", "1", "3", "64">>, <<"0", "few">>),
            S("XTRUCTURE_HASHTABLE_TRITON_INSERT", "table", <<"", "true", "0", "1">>, <<"maybe", "2">>),
            S("XTRUCTURE_HASHTABLE_TRITON_INSERT_MAX_PROBE_BUCKETS", "table", <<"", "auto", "4096">>, <<"0", "all">>),
            S("XTRUCTURE_HASHTABLE_TRITON_INSERT_NUM_WARPS", "table", <<"", "2", "auto">>, <<"0", "some">>),
            S("XTRUCTURE_HASHTABLE_TRITON_INSERT_NUM_STAGES", "table", <<"", "1", "none">>, <<"-2", "x">>),
            AGG_MODE,
            S("XTRUCTURE_AGG_BITPACK_PACK_BACKEND", "pack", <<"", "pallas", "xla", "auto">>, <<"cuda", "fast">>),
            S("XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE", "pack", <<"", "1", "3", "16">>, <<"0", "x">>) >>
      [] d = "tpu" -> <<
            DEDUPE,
            S("XTRUCTURE_BGPQ_MERGE_BACKEND", "import", <<"", "sort", "xla">>, <<"quick", "off">>),
            VALUE, VALUE_SPLIT,
            S("XTRUCTURE_HASHTABLE_PALLAS_INSERT", "table", <<"", "on", "no", "y">>, <<"maybe", "2">>),
            S("XTRUCTURE_HASHTABLE_PALLAS_INSERT_MAX_PROBE_BUCKETS", "table", <<"", "auto", "4096">>, <<"0", "all">>),
            S("XTRUCTURE_HASH_STREAM", "declare", <<"", "on", "off", "auto">>, <<"yes", "streaming">>),
            AGG_MODE,
            S("XTRUCTURE_AGG_BITPACK_PACK_BACKEND", "pack", <<"", "pallas", "xla", "auto">>, <<"cuda", "fast">>),
            S("XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE", "pack", <<"", "1", "3", "16">>, <<"0", "x">>) >>
Size(d) == Len(TableOf(d))
Vals(d, i) == TableOf(d)[i].good
Has(d, name) == \E i \in 1 .. Size(d) : TableOf(d)[i].name = name
At(d, name) == CHOOSE i \in 1 .. Size(d) : TableOf(d)[i].name = name
\* The value of a switch, "" for one this device does not have.
Val(d, conf, name) == IF Has(d, name) THEN conf[At(d, name)] ELSE ""

Accepts(d, conf) == \A i \in 1 .. Size(d) : \E k \in DOMAIN Vals(d, i) : Vals(d, i)[k] = conf[i]
Refuses(d, i, v) == \E k \in DOMAIN TableOf(d)[i].bad : TableOf(d)[i].bad[k] = v

\* The two specific value switches fall back on the general one; the threshold of an automatic choice is
\* read only where that choice is asked for.  The switches of a kernel are read only where it is used.
Specific == {"XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_SORTSPLIT", "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_BUFFER"}
Eff(d, conf, n) == IF Val(d, conf, n) = "" THEN Val(d, conf, "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND") ELSE Val(d, conf, n)
MovesValues(d, conf) == d = "gpu" /\ \E n \in Specific : Eff(d, conf, n) \in {"kv", "parallel", "on"}
ParallelMerge(d, conf) == d = "gpu" /\ (\A n \in Specific : Eff(d, conf, n) \in {"", "off", "false"})
                                    /\ Val(d, conf, "XTRUCTURE_BGPQ_MERGE_BACKEND") \in {"", "parallel", "pallas"}
TritonInsert(d, conf) == d = "gpu" /\ Val(d, conf, "XTRUCTURE_HASHTABLE_TRITON_INSERT") # "0"
PallasInsert(d, conf) == d = "tpu" /\ Val(d, conf, "XTRUCTURE_HASHTABLE_PALLAS_INSERT") # "no"
PallasPack(d, conf) == Val(d, conf, "XTRUCTURE_AGG_BITPACK_PACK_BACKEND") = "pallas"
                       \/ (d = "tpu" /\ Val(d, conf, "XTRUCTURE_AGG_BITPACK_PACK_BACKEND") \in {"", "auto"})
Asked(d, i, conf) ==
    LET n == TableOf(d)[i].name IN
    CASE n = "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND" -> \E m \in Specific : Val(d, conf, m) = ""
      [] n = "XTRUCTURE_BGPQ_MERGE_VALUE_AUTO_MIN_BATCH" -> \E m \in Specific : Eff(d, conf, m) \in {"auto", "kv_auto"}
      [] n \in {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE", "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX", "XTRUCTURE_BGPQ_MERGE_NUM_WARPS",
                "XTRUCTURE_BGPQ_MERGE_NUM_STAGES"} -> MovesValues(d, conf) \/ ParallelMerge(d, conf)
      [] n \in {"XTRUCTURE_BGPQ_MERGE_VALUE_PACKING", "XTRUCTURE_BGPQ_MERGE_VALUE_SCALAR_MAX"} -> MovesValues(d, conf)
      [] n \in {"XTRUCTURE_HASHTABLE_TRITON_INSERT_MAX_PROBE_BUCKETS", "XTRUCTURE_HASHTABLE_TRITON_INSERT_NUM_WARPS",
                "XTRUCTURE_HASHTABLE_TRITON_INSERT_NUM_STAGES"} -> TritonInsert(d, conf)
      [] n = "XTRUCTURE_HASHTABLE_PALLAS_INSERT_MAX_PROBE_BUCKETS" -> PallasInsert(d, conf)
      [] n = "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE" -> PallasPack(d, conf)
      [] OTHER -> TRUE

\* What an answer may depend on besides the question.
Packed(d, conf) == LET m == Val(d, conf, "XTRUCTURE_HASH_AGG_MODE") IN m = "packed" \/ (m = "auto" /\ d = "tpu")
Depends(kind, d, conf) == IF kind \in {"hash", "view"} /\ Packed(d, conf) THEN "packed" ELSE "raw"
=============================================================================
