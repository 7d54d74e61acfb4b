# Claims of the checks; extends CLAIMS of gen_manifest.py.
CLAIMS["P09"] = (AI + "; writes attributed to owners of memory", "Every store, builtin and modelled library effect reachable from an encoder, decoder or set operation is attributed to a memory region; none may belong to an argument. " + T)
CLAIMS["P10"] = (AI + "; effects on package-level memory; source query over package variables", "Every store reachable from an entry point is attributed to a memory region; none may be reachable from package variables. " + T)
CLAIMS["P19"] = (AI + "; registry initialiser evaluated abstractly, lookups interpreted per registered name", "Registry maps are built from the package initialisers; for each registered name the constructor, the name method and the lookup are interpreted and compared. " + T)
CLAIMS["P20"] = (AI + "; byte-set constraints on the input line per routing kind", "Routing of raw packets is interpreted with each kind byte and compared with the kind of the returned packet and the re-encoded header. " + T)
CLAIMS["P21"] = ("Comparison of type-checked constants, field tags and abstractly evaluated initialisers and naming methods with a table of the specifications", "Every exported constant, feature, command name, kind letter and field tag in the table is looked up in the program and compared; field codes of each message are checked for distinctness. " + T)
CLAIMS["P26"] = ("SSA access classification (atomic container, lock set dataflow, fresh allocation) plus abstract interpretation of the setters", "Every instruction that loads or stores a text codec is classified; every path through a setter must store its argument. " + T)
CLAIMS["P27"] = (AI + " of decoders on zero messages; interprocedural field access sets of encoders", "Fields that some successful exit of the decoder leaves non-zero are compared with the fields the encoder reads; each tagged field is decoded and encoded through the reflective codec by itself. " + T)
CLAIMS["P23"] = ("SSA query over error results; " + AI + " with a ledger of failed calls per path", "Every error result is used; on every path to a successful exit of an entry point or connection operation, no recorded call has failed. " + T)
CLAIMS["P12"] = (MGC + " with a typestate (working, failed, closed)", "Histories of any length, a connection that may fail at any write, callbacks that may fail. Wrong-use errors (switching compression twice) are not failures. Close may send what was buffered once.")
CLAIMS["P13"] = (MGC + " with typestates for compression, buffered data and the source of plain bytes", "The compressor and decompressor are modelled by their documented contract; the decompressor is assumed to report the end of a block again once it did.")
CLAIMS["P28"] = (MGC + " with a typestate of the deadline", "Any result of the timeout callback; Close goes on when arming fails, as its documentation asks for the resources to be freed.")
CLAIMS["P15"] = (MGC + " with the position in each hook list followed through the loops that call the hooks", "Any number of hooks with any results; callbacks that are given an error are assumed to follow their documentation. " + T)
CLAIMS["P14"] = (AI + " with linear relations between lengths and limits; " + MGC, "Any line source and any limit set at any time; names decoded without a text decoder (converting may change their length after the check). " + T)
CLAIMS["P25"] = ("value range analysis on SSA (constants, types, dominating comparisons, bounded loops, call results)", "Every narrowing or sign-changing conversion, float-to-integer conversion, digit accumulation and reflective store reachable from a decoder is shown to fit its type or to be rejected by a dominating check. int and uint are taken to have 64 bits. That an error of a number parser is not dropped is decided by P23.")
CLAIMS["P16"] = (AI + " with byte-set facts", "NMDC and ADC line readers and ADC packet decoders: every line or packet that breaks the framing rules is rejected, for any input bytes and any schedule of calls on a reader. Packet decoders given a slice directly are assumed to get a line with the delimiter only at its end.")
CLAIMS["P17"] = (AI + " with a model of a reader that splits, ends or fails anywhere, and a ledger of what was read and hashed", "Every content, chunking and read failure, for the functions of package tiger that hash a reader or combine leaves. How siblings are paired inside the tree is the same code for every chunking and is not judged. " + T)
CLAIMS["P18"] = (AI + " with marked bytes: rejection runs for every way an expected keyprint can differ", "Any certificate chain; crypto/tls is assumed to report the certificates of the connection, pem.Decode and base32 to follow their documentation. " + T)
CLAIMS["P24"] = (AI + ": one run per class of schemes and hosts", "Every string net/url can parse into, per scheme class (each known scheme, and every other one by length or by a differing byte); net/url is assumed to follow its documentation. " + T)
CLAIMS["P22"] = (AI + " with marked bytes: rejection runs for every size of the text and of what it decodes to", "Session IDs, feature codes, client IDs, private IDs and tiger hashes: every text of the wrong size is rejected and leaves the identifier as it was; a session ID or feature code is any 4 bytes. encoding/base32 is assumed to follow its documentation, and identifiers in packet headers are judged by P16 and P20. " + T)
