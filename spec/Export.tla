-------------------------------- MODULE Export ---------------------------------
(* Writes the vocabulary as JSON for the generators of the conformance driver.  *)
EXTENDS OoxmlVocab, Json, IOUtils
ASSUME JsonSerialize(IOEnv.VOCAB, Vocab)
===============================================================================
