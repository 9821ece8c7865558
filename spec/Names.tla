--------------------------------- MODULE Names ---------------------------------
(* A name parser: two maps kept in step. Registering adds a (name, identifier)
   pair; asking for the name of an identifier or the identifier of a name must
   be mutually inverse. Names are sequences of characters, so names that are
   prefixes of one another or differ in one character or in case are distinct. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE pairs                 \* set of <<name, id>>
NameOf(i) == CHOOSE n \in {p[1] : p \in pairs} : <<n, i>> \in pairs
IdOf(n) == CHOOSE i \in {p[2] : p \in pairs} : <<n, i>> \in pairs
Names == {p[1] : p \in pairs}
IdSet == {p[2] : p \in pairs}
Free(n, i) == n \notin Names /\ i \notin IdSet
Register(n, i) == Free(n, i) /\ pairs' = pairs \cup {<<n, i>>}
Bijective == /\ \A i \in IdSet : IdOf(NameOf(i)) = i
             /\ \A n \in Names : NameOf(IdOf(n)) = n
             /\ \A p, q \in pairs : (p[1] = q[1]) <=> (p[2] = q[2])
\* documented spellings of the runtime type names
TypeNames == ("double" :> "double") @@ ("float" :> "float") @@ ("size_t" :> "size_t") @@ ("int" :> "int")
    @@ ("DynamicMatrix" :> "DynamicMatrix") @@ ("ConstDynamicMatrix" :> "ConstDynamicMatrix") @@ ("Dim" :> "Dimension")
    @@ ("MultipleSDSF" :> "MultipleMatrix") @@ ("MultipleSDDF" :> "MultipleMatrix")
MatrixNames == ("Zero" :> "Matrix<Zero>") @@ ("DenseDouble" :> "Matrix<Dense,double>") @@ ("DenseFloat" :> "Matrix<Dense,float>")
    @@ ("DenseInt" :> "Matrix<Dense,int>") @@ ("DenseSize" :> "Matrix<Dense,size_t>") @@ ("Blocked" :> "Matrix<Dense,DynamicMatrix>")
    @@ ("SparseDouble" :> "Matrix<Sparse,double>") @@ ("SparseFloat" :> "Matrix<Sparse,float>")
    @@ ("DenseDoubleRow" :> "Matrix<Dense,double>") @@ ("DenseDim" :> "Matrix<Dense,Dimension>")
TrackerNames == {"OpenBLAS_dgemm", "OpenBLAS_sgemm", "IntelMKL_dgemm", "IntelMKL_sgemm", "IntelMKL_dcsrmm", "IntelMKL_scsrmm",
    "IntelMKL_dcsrmultcsr", "IntelMKL_scsrmultcsr", "Eigen_dgemm", "Eigen_sgemm", "Eigen_sdgemm", "Eigen_dsgemm", "Blaze_dgemm",
    "Blaze_sgemm", "Blaze_sdgemm", "Blaze_dsgemm", "Native_GeneralDense", "Native_sparse", "Native_sparse_dense", "Native_dense_sparse",
    "Native_matrix_zero", "Native_zero_matrix", "Native_zero_zero", "get_detection_arrays", "get_block_size"}
=============================================================================
