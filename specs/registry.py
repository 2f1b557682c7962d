"""Which contract modules decide which property."""
PROPS={}
def P(i,modules,fz,**k): PROPS[i]=dict(modules=modules,fz=fz,**k)
P("C01",["bufferqueue"],["bufferqueue"],note="every operation of the ring is proved against its ghost view (sequence of bytes); FIFO content follows by induction on operations")
P("C02",["bufferqueue"],["bufferqueue"])
P("C03",["socketbuf"],["socketbuf"],note="requires 1<=initial size<=maximum<2^31, non-negative lengths, removal of at most the held bytes, commit of at most the free area.")
P("C10",["filters"],["filters"],note="the caller passes a block of at least the stated size.")
NOTE="Every obligation generated from the current source is discharged for all inputs and iterations by z3 (bit-vectors, or exact linear-integer image); trusted: clang's translation to IR, the VC generator in lv/, assumed contracts on libc/libstdc++ listed in the evidence."
NA={}
P("C04",["circle"],["circle"],note="Instantiated with a 64-bit element (the template body does not depend on the element type; the falsifier uses a 40-byte one). Order of accesses is the program order of the IR: reordering by compiler or CPU beyond volatile is outside the contract.")
P("C07",["bitmap"],["bitmap"],note="set/get proved for every pair of cell positions (8x8 residues, group numbers symbolic) and every width; requires at most 2^60 cells, a value that fits the width, a segment that is mapped writable.")
P("C08",["shmarray"],["shmarray"],note="requires n*sizeof(element) below 2^45 (no size overflow); the attaching process uses the same n.")
P("C09",["package"],["package"],note="instantiated with a 6-byte head; requires packages below 2 GiB and writePos positions of previously written fields.")
P("C11",["httpfilter"],["httpfilter"],note="the header name is matched at the start of a line with this exact spelling; the numeric value of its text is strtol's.")
P("C17",["utils"],["utils"],units={"utils":["encode","decode","lemmas","hex"]},note="strings below 2 GiB. The fold functions (encoded length, source position of an output byte) are defined by recursion; their monotonicity and decode(encode(s))=s are proved by induction steps.")
P("C29",["utils"],["utils"],units={"utils":["hash","hex"]},note="bytes are the platform's (signed) char. Shard selection is covered with the LRU cache.")
P("C18",["strhelper"],["strhelper"],note="strings below 2 GiB, distinct argument objects. Termination of SplitStr and ReplaceStr is proved by a decreasing remainder.")
P("C05",["blockqueue"],["blockqueue"],note="instantiated with a 64-bit element (the template body does not depend on the type). Monitor contract: every acquisition of the lock yields an arbitrary consistent queue, every release must leave the queue as found or changed by exactly the operation's one transition; requires capacity below 2^30, timeout >= 0.",assume=["the queue is destroyed only when no other thread uses it"])
P("C23",["task"],["task"],note="tasks are opaque (type, 64-bit data); std::queue is assumed to be a FIFO sequence; a limit below zero means no limit (conversion to size_t). Thread start, stop and cancellation are outside the contract.")
P("C21",["logbuffer"],["logbuffer"],note="the bytes given do not overlap the buffer; the object is not copied.")
P("C12",["anyvalue"],["any"],units={"anyvalue":["scalars","strings","vectors","maps_encode","maps_decode","maps_decode_again","entry"]},note="a value read back with the decoder that is proved for arbitrary bytes: scalar and string round trips directly, vectors and maps by induction over the elements (each nested encode/decode is its own contract). Nesting at most 1000 levels; strings and containers below 2^32.")
P("C13",["anyvalue"],["any"],units={"anyvalue":["end","entry","safe0_1_2_3","safe4_5","safe6","safe10_11_12","safe13_14_15_16","safe9","safe_other","safe7","safe8"]},note="every tag value is decided, the recursion through vectors and maps by the contract of the entry function, which bounds its depth.")
P("C14",["anyops"],["any"],note="std::deque and std::map are assumed contracts (their element-wise behaviour); keys() is only exercised by the executable contract. Function-local static null values are taken as their first use left them.")
P("C15",["anyjson"],["any"],note="text below 2^28 bytes, at most 1000 nesting levels, finite floats, keys of at most 255 bytes; containers by induction over the elements (nested encodeJSON/readArray/readObj calls are their own contracts). The escaped form is a fold over the bytes; the slices of a container's text are defined by recursion.")
P("C16",["anypackage"],["any"],note="the body is opaque: encode/decode of the value tree is C12/C13's contract.")
P("C27",["tcp"],["tcp"],note="the socket calls are assumed contracts: send takes any prefix, fails with any errno, recv returns any prefix of the bytes the peer sent in order. Requires sizes >= 0 (a positive one for read), a C string for the text form, and one thread per connector.")
P("C06",["lru"],["lru"],note="instantiated with 64-bit keys and values; the node heap is one array per field, the recency list a ghost sequence, std::unordered_map an abstract map. Requires fewer than 2^40 entries and a clock that does not run backwards. The sharded cache forwards to shards under this contract.",assume=["copying keys and values does not throw","operator new does not fail"])
P("C19",["httpwriter"],["httpwriter"],note="std::string is modelled as a sequence of text segments, std::map as an assumed contract (entries in order, each once); the date text of GetGMTDate is opaque (29 bytes). Numbers written through the templates are covered for int and unsigned long. A name given two cookies keeps the first. Texts below 2^32 bytes.")
P("C28",["config"],["config"],note="std::getline, std::ifstream and std::map are assumed contracts (the file is a sequence of lines; the map holds per section an abstract key->text table); trimming is CStrHelper::TrimStr by its C18 contract; numeric text is converted as strtol/strtoul do (assumed). Lines below 2^40 bytes; a second loadConfig adds to what is there; getIPAndPortList is not under contract (exercised by nothing).")
P("C25",["netio"],["netio"],units={"netio":["write net","write comm","onwrite","close"]},note="One connection of CNetWorker and of CCommMgr. The send buffer is CSocketBuf by its C03 contract, event registration CEvent's contract (C24); send is an assumed contract. A write that is refused either takes nothing or closes the connection. Requires sizes >= 0 and the session of a connection of this manager; one thread.")
P("C26",["netio"],["netio"],units={"netio":["read"]},note="One connection of CNetWorker and of CCommMgr, with a handler that may close the connection and open a new one on the same descriptor. The filter is any function of the bytes (0: a package of 1..n bytes, -2: invalid); that the library's filters do not depend on how the stream is chopped is C10/C11. The receive buffer is CSocketBuf by its C03 contract.")
