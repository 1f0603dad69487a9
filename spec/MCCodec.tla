------------------------------ MODULE MCCodec -------------------------------
EXTENDS Codec, Json
Emit == pc = "stored" => PrintT("TRACE " \o ToJson([t |-> ty, v |-> val, x |-> text]))
=============================================================================
