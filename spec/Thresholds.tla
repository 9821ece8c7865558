------------------------------ MODULE Thresholds ------------------------------
(* Threshold objects: each holds one value per setting. A query names a
   representation and a precision (or a plain setting) and must return exactly
   the value of the one setting documented for it. Values are opaque. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Slots
VARIABLE thr                       \* slot -> settings record, or <<>> while there is no object
\* representation/precision -> setting; kept apart from the code's names
Precisions == {"float", "double"}
Reprs == {"Zero", "SparseFloat", "DenseFloat", "SparseDouble", "MultipleSDSF", "MultipleSDDF", "DenseDouble"}
OccKey == [m \in Reprs |-> [t \in Precisions |->
    IF m = "Zero" THEN IF t = "float" THEN "occupationThresholdMatrixZeroSinglePrecision" ELSE "occupationThresholdMatrixZeroDoublePrecision"
    ELSE IF m = "SparseFloat" THEN IF t = "float" THEN "occupationThresholdMatrixSparseFloatSinglePrecision" ELSE "occupationThresholdMatrixSparseFloatDoublePrecision"
    ELSE IF m = "DenseFloat" THEN IF t = "float" THEN "occupationThresholdMatrixDenseFloatSinglePrecision" ELSE "occupationThresholdMatrixDenseFloatDoublePrecision"
    ELSE IF m = "SparseDouble" THEN IF t = "float" THEN "occupationThresholdMatrixSparseDoubleSinglePrecision" ELSE "occupationThresholdMatrixSparseDoubleDoublePrecision"
    ELSE IF m = "MultipleSDSF" THEN IF t = "float" THEN "occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision" ELSE "occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision"
    ELSE IF m = "MultipleSDDF" THEN IF t = "float" THEN "occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision" ELSE "occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision"
    ELSE IF t = "float" THEN "occupationThresholdMatrixDenseDoubleSinglePrecision" ELSE "occupationThresholdMatrixDenseDoubleDoublePrecision"]]
SigKey == [t \in Precisions |-> IF t = "float" THEN "significanceThresholdSinglePrecision" ELSE "significanceThresholdDoublePrecision"]
Keys == {OccKey[m][t] : m \in Reprs, t \in Precisions} \cup {SigKey[t] : t \in Precisions} \cup {"min_block_size", "max_block_size"}
\* every query has its own setting
ASSUME Cardinality(Keys) = 18
Queries == {<<"occ", m, t>> : m \in Reprs, t \in Precisions} \cup {<<"sig", "", t>> : t \in Precisions} \cup {<<"min", "", "">>, <<"max", "", "">>}
KeyOf(q) == IF q[1] = "occ" THEN OccKey[q[2]][q[3]] ELSE IF q[1] = "sig" THEN SigKey[q[3]] ELSE IF q[1] = "min" THEN "min_block_size" ELSE "max_block_size"
Make(s, v) == thr' = [thr EXCEPT ![s] = v]
Copy(s, d) == thr[s] # <<>> /\ thr' = [thr EXCEPT ![d] = thr[s]]     \* copy construction or assignment, also onto itself
Answer(s, q) == thr[s][KeyOf(q)]
=============================================================================
