------------------------------ MODULE Catalogue ------------------------------
(* The types the specification is about: a function from type names to declarations, written by
   lib/catalogue.py, which the Rust declarations under test are generated from as well. *)
EXTENDS Json, IOUtils
T == JsonDeserialize(IOEnv.VP_TYPES)
=============================================================================
