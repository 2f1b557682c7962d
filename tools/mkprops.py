#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as code only so the JSON stays well formed)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Message ring delivers whole messages, once each, in push order",
 "CBufferQueue is a FIFO of byte messages: every successful push (one- or two-buffer form) appends exactly the bytes given as one message, and pop (one- or two-buffer form) returns the oldest undelivered message with exactly its length and bytes, filling the first buffer before the second, wherever the message or its length mark falls relative to the end of the ring. A pop into buffers that are too small discards exactly that one message and throws, leaving all later messages intact; pop on an empty ring returns false, and empty() and size() report exactly whether and how many messages are queued.",
 ["inputs","histories"],"every ring size accepted by create, every reachable begin/end position and content, every message length and split of the buffers",
 "test/cbqueue pushes a few fixed strings into a fresh ring and pops two of them; wrap of the payload, wrap inside the 8-byte length mark and the two-buffer forms depend on the position and length and are never reached.",
 ["include/CBufferQueue.h"],"header {size,begin,end,num} followed by the ring; records are an 8-byte length and the payload, both may wrap; branches on begin/end order and on distance to the end",
 [("iBegin/iEnd","ring offsets of the oldest record and of the free space"),("iNum","number of queued messages")])
p("C02","Message ring refuses what does not fit and never leaves its memory",
 "create and attach accept a region only if it is large enough and, for attach, its stored header is consistent with the region size; push throws 'full' and changes no queued message exactly when the message with its 8-byte mark and the 8 reserved bytes does not fit the free space, and full(len) predicts precisely that. No push or pop reads or writes outside the ring or the caller's buffers or trips an internal assertion, the producer never moves the read position and the consumer never moves the write position.",
 ["inputs","histories","schedules"],"every region size and header content, every ring state, every message length; one producer and one consumer in any interleaving of whole reads of the other side's position",
 "the test fills one small ring once; off-by-ones in the free-space arithmetic show only at exact sizes and positions.",
 ["include/CBufferQueue.h"],"free space computed from begin/end order, mark length 8 and reserve length 8, so that end never catches up with begin")
p("C03","Socket buffer is a bounded byte FIFO whose content survives growth",
 "CSocketBuf holds exactly the bytes added and not yet removed, in order: appending (either by copy or by filling the free area and committing it) adds exactly those bytes at the end, removing n drops exactly the first n, and compaction, growth, shrinking, copy construction and assignment never change the held bytes. addData by copy succeeds exactly when held bytes plus new bytes do not exceed the configured maximum, otherwise it changes nothing; no operation touches memory outside the allocated buffer.",
 ["inputs","histories"],"every initial size and maximum, every sequence of operations and lengths, every buffer state satisfying the class invariant",
 "only reached through the echo servers with small messages that never fill, wrap or shrink a buffer.",
 ["include/CSocketBuf.h"],"begin/end offsets into a heap block that is compacted (memmove), doubled up to the maximum, or resized back to the initial size when drained")
p("C04","Circular queue is a bounded FIFO, one producer and one consumer",
 "CCircleQueue initialised with capacity n (n of 0 meaning 1000) holds at most n elements; enque returns false and changes nothing exactly when n are held, otherwise it appends a copy of the element, and deque returns false exactly when empty, otherwise it returns the oldest element and removes it. With one producer and one consumer thread a slot is fully written before the position that publishes it moves and fully read before the position that releases it moves, and each side writes only its own position.",
 ["inputs","histories","schedules"],"every capacity, every front/rear position, every element value, every interleaving of one producer with one consumer",
 "the test enqueues 0..99 and dequeues them in a queue that never wraps or fills, single threaded.",
 ["include/CCircleQueue.h"],"power-free ring of capacity+1 slots; empty iff front==rear, full iff rear+1==front modulo the slot count; volatile positions")
p("C05","Blocking queue is a bounded FIFO whose state is only touched under its lock",
 "CBlockQueue delivers each pushed element exactly once in push order and never holds more than its capacity (a non-positive capacity meaning 1000): push waits while full, pop waits while empty, the timed pop returns false only if the queue is empty after a wait bounded by the requested number of milliseconds, front/back/size/empty/full report the oldest, newest and count, and clear empties it. Every access to the shared state happens while the queue's mutex is held, every call releases the mutex exactly once, and waiters are woken after each successful push or pop.",
 ["schedules","inputs","histories"],"every interleaving of any number of producers and consumers, every spurious wake-up, every capacity and content",
 "no test starts two threads on the queue; a lost lock or a skipped re-check after a wake-up needs a particular interleaving.",
 ["include/CBlockQueue.h"],"ring of slots with size/front/back indices guarded by one mutex and one condition variable")
p("C06","LRU cache: lookups return the last value set; size bound and LRU order hold",
 "In CLruCache, get returns true exactly when the key was set and not since deleted, cleared, evicted or expired, and then yields the last value set; an entry with a non-zero lifetime expires exactly when more than that many seconds have passed since it was set. The key index and the recency list always describe the same entries, set and successful get make an entry the most recent, and eviction happens only when a set finds the cache over its configured maximum, removing the least recently used entries (at most 50) and no others.",
 ["inputs","histories"],"every sequence of set/get/del/clear over all keys, values, lifetimes and clock values; every list and index state satisfying the invariant",
 "the test sets two keys with a lifetime and reads them back; eviction, relinking of middle/tail nodes and the index/list agreement are not reached.",
 ["include/CLruCache.h"],"hash index from key to node plus an intrusive doubly linked recency list with head and tail, under one mutex",
 [("pstHead/pstTail","most and least recently used entries"),("m_mapCache","key index")])
p("C07","Bitmap cells are independent and keep the value last stored",
 "For every cell width (1,2,3,4,5,6,8 bits) and every index below the bitmap size, get after set returns the value stored (a value that fits the width), and setting one cell changes no other cell. get and set on an index beyond the size change nothing and report false (0), and no access falls outside the shared segment that init sized for the bitmap.",
 ["inputs","histories"],"every bitmap size, every pair of distinct indices, every previous content and every value",
 "test/bitmap sets and reads a single bit of the 1-bit bitmap.",
 ["include/CBitMap.h","include/CShm.h"],"packed cells in bytes or in 64-bit words at (index/8)*width, cleared with a mask table and or-ed with the shifted value")
p("C08","Shared array elements are distinct and inside the segment",
 "CShmArray initialised with n elements gives, for every index below n, an element that lies wholly inside the shared segment, overlaps no other element and does not overlap the segment's own bookkeeping; size() is n, and a process that attaches to an existing segment sees the same size and elements.",
 ["inputs","histories"],"every element count, every pair of indices, created or attached segments",
 "no test exercises the class.",
 ["include/CShmArray.h","include/CShm.h"],"segment = head {count, reserved, node offset} followed by the nodes; offsets are relative to the mapping address")
p("C09","Package fields read back as written and reads never leave the package",
 "CPackage writes every integer type in network byte order, so that the same types read in the same order return the written values, writePos overwrites exactly the field at the given position, and the length-prefixed and raw reads return exactly the bytes written. From any read position reached through the API, a read that asks for more than remains throws and changes nothing, and no read or seek ever yields data outside the package body.",
 ["inputs","histories"],"every package content and length, every read position, every value of every integer type, every length prefix",
 "no stable test drives the class; hostile length prefixes and end positions are corner inputs.",
 ["include/CPackage.h","include/Utils.h"],"std::string holding head and body, integer read position relative to the body, per-type append/memcpy with byte swap")
p("C10","Binary frame filters accept exactly well-formed frames inside the received bytes",
 "For the STX/length/ETX filters (2-byte and 4-byte length) and the raw filter, isWholePkg classifies any received prefix exactly: 0 with the frame's total and payload length when a complete frame (start mark, length at least the framing overhead, end mark at the declared end) is present; -2 when the first byte is not the start mark or, once as many bytes as the framing overhead are there, the declared length is below the overhead or beyond 2^31-1 or the byte at the declared end is not the end mark; -1 otherwise (more bytes are needed). getRealPkgData then points at that payload. The filters read only bytes that were received, and an accepted frame is non-empty and never longer than the received bytes.",
 ["inputs"],"every byte sequence of every length, including hostile length fields",
 "the echo tests send well-formed frames only; classification of partial and malformed prefixes is an all-inputs claim.",
 ["include/CH2ShortT3PackageFilter.h","include/CH2T3PackageFilter.h","include/CRawPackageFilter.h"],"start mark 0x02, big-endian total length, payload, end mark 0x03")
p("C11","HTTP frame filter finds exactly the header plus the declared body",
 "For any received text the HTTP filter reports a complete message exactly when the blank line ending the headers has been received together with as many following bytes as the Content-Length header declares (none if absent), and the length it reports is exactly header length plus declared body length. An incomplete message is reported as incomplete (-1), a declared length that is negative or impossible as malformed (-2), an accepted length is positive and never exceeds the received size, and only received bytes are read.",
 ["inputs"],"every received byte sequence, header order and Content-Length value, complete or truncated anywhere",
 "the server tests issue one complete request each; truncation points and hostile Content-Length values are not tried.",
 ["include/CHttpPackageFilter.h","src/CCommMgr.cpp","src/CNetWorker.cpp"],"string searches for the first line end, the blank line and the Content-Length header, then integer conversion of its value")
p("C12","Any-value binary encoding round-trips every value",
 "Encoding any CAnyValue (null, bool, unsigned and signed integers of every magnitude, float, string of any length and content, nested vectors and maps up to 1000 levels deep, strings and containers below 2^32 entries) and decoding the bytes gives back a value of the same type and content, consuming exactly the bytes encoded. The encoding uses the smallest integer and string form that represents the value, in network byte order, and concatenated encodings do not interfere.",
 ["inputs"],"every value of every type, every nesting, every map and vector content",
 "the conversion tests encode three fixed JSON documents; width boundaries and signed/unsigned limits are single points among 2^64 values.",
 ["include/CAnyValue.h"],"type tag byte, fixed-width big-endian payloads chosen by magnitude, counted vectors and maps decoded through a 17-entry table")
p("C13","Decoding untrusted any-value bytes never leaves the input",
 "For every byte sequence, CAnyValue::decode either succeeds or throws its error: it reads only bytes of the input, moves its read position forward and never past the end, and rejects any scalar or string whose declared size exceeds what remains.",
 ["inputs"],"every byte sequence of every length, every decode position, every type tag and declared length",
 "tests decode only bytes produced by the encoder.",
 ["include/CAnyValue.h"],"position reference plus bounds check before each field, per-tag decode functions")
p("C14","Any-value conversions and accessors are faithful to the stored value",
 "A CAnyValue constructed from a C++ bool, integer, float or string reports the matching type and converts back to the same value; conversions on a value of another type return the documented zero or empty result; copying and assignment produce an independent equal value. Indexing, hasKey, insert, erase, push and pop on maps and vectors behave as on the standard map and deque with keys truncated to 255 bytes, and misuse throws instead of touching invalid memory.",
 ["inputs","histories"],"every scalar value of every constructor type, every sequence of container operations",
 "test/anyvalue prints a few sample values.",
 ["include/CAnyValue.h"],"tagged union of integer, double and owned string/deque/map pointers")
p("C15","JSON text round-trips strings and numbers and parsing stays in the text",
 "JSON text below 2^28 bytes produced by encodeJSON from a value nested at most 1000 levels deep, with finite floats and map keys of at most 255 bytes, parses back with decodeJSON to an equal value: every string and key round-trips through escaping byte for byte, every integer, boolean and float through its text, containers keep their length, order and nesting (a non-negative signed integer reads back as the unsigned integer of the same value). decodeJSON on arbitrary text either yields a well-formed value or throws, reads only the text it was given, and recurses at most 1000 levels.",
 ["inputs"],"every value tree; every byte sequence offered as JSON text",
 "three fixed documents are converted back and forth.",
 ["include/CAnyValue.h"],"escape writer and recursive-descent reader over (buffer, position, size)")
p("C16","Any-package header fields and body are carried faithfully",
 "Every AnyHeader field returns from its getter exactly the value given to its setter, is stored in network byte order at its fixed offset of the 43-byte packed header and disturbs no other field. An any-package encoded and decoded again has the same header bytes and an equal body.",
 ["inputs"],"every value of every field, in any order of setting; every body value",
 "no test sets all fields to boundary values.",
 ["include/CAnyPackage.h","include/CAnyValue.h"],"packed struct with htonl/htons style accessors; package = header bytes followed by encoded value")
p("C17","URL form encoding and decoding are inverse, hex helpers exact",
 "FormUrlDecode(FormUrlEncode(s)) equals s for every byte string s; the encoder emits only unreserved characters, '+' for space and %XX with upper-case hex for everything else. Decoding arbitrary input is total and processes each %XX escape (either case) to exactly that byte, '+' to space and everything else to itself.",
 ["inputs"],"every byte string of every length and content",
 "no test calls these helpers with non-trivial bytes.",
 ["src/Utils.cpp","include/Utils.h"],"byte-wise encode/decode loops over std::string, hex conversion helpers")
p("C18","String helpers split, trim, replace and extract exactly",
 "TrimStr removes exactly the leading and trailing blanks (space, tab, CR, LF); SplitStr followed by joining with the separator gives back the input; ReplaceStr replaces every non-overlapping occurrence left to right and nothing else; SplitHostPort and GetMiddleStr return exactly the text delimited by the given separators and report absence without changing the output.",
 ["inputs"],"every string, separator, pattern and start position",
 "no stable test calls them on boundary inputs.",
 ["include/StringHelper.h"],"std::string find/substr loops")
p("C19","HTTP responses carry the status, headers and exact body length",
 "A response built by CHttpWriter consists of the status line, each header once as 'name: value' terminated by CRLF, a blank line and then exactly the bytes written as content, with a Content-Length header equal to that byte count (or to the length the caller announced; none when a status without a body has none). Building a second response with the same writer carries nothing over from the first.",
 ["inputs","histories"],"every status, header set, cookie set and body, every sequence of responses on one writer",
 "the HTTP tests fetch one page.",
 ["src/CHttpWriter.cpp","include/CHttpWriter.h"],"header map, content string and head string assembled in encode")
p("C20","HTTP request parsing yields exactly the parameters sent",
 "CHttpReader on a well-formed GET or POST request yields the method, path, host, headers, cookies and the decoded query and form parameters that were sent, and nothing left over from a previously parsed request. Arbitrary request bytes never cause a read outside the request.",
 ["inputs","histories"],"every request text; every sequence of requests parsed by one reader",
 "one or two fixed requests are sent by the HTTP tests.",
 ["src/CHttpReader.cpp","include/CHttpReader.h"],"line and token splitting with find/substr into maps")
p("C21","Log buffer is an append-only bounded record of what was written",
 "CLogBuffer holds exactly the concatenation of the successful writes since the last reset, in order; a write succeeds exactly when the buffer is initialised and the data fits the remaining space, a refused write changes nothing but the full flag, and nothing is ever written outside the buffer.",
 ["inputs","histories"],"every buffer size, fill level and write length",
 "the log test writes 1000 short lines that never exceed the buffer.",
 ["include/CLogBuffer.h","src/CAsyncLog.cpp"],"data pointer, size, capacity; append by memcpy")
p("C22","Asynchronous log keeps every accepted line once and in order",
 "Every line accepted by the asynchronous logger is written to its file exactly once, lines from one thread stay in order, and switching, flushing and rotating never loses, duplicates or tears a line, under any interleaving of writers with the flush thread.",
 ["schedules","histories"],"every interleaving of any number of writers with the flusher, every buffer fill level",
 "the log test has one writer and no concurrent flush at the switching point.",
 ["src/CAsyncLog.cpp","include/CAsyncLog.h","src/CFileLog.cpp"],"two log buffers swapped under a lock, a flusher thread, size-based rotation")
p("C23","Task queue hands each task to exactly one worker in order, under its lock",
 "CTask::dispatch enqueues the task it is given exactly once and wakes a worker, or reports -1 and enqueues nothing when the queue is over its limit; every dispatched task is taken by exactly one worker in dispatch order with the type and data it was dispatched with. The shared queue is only touched while the lock is held and every path releases the lock exactly once.",
 ["schedules","histories"],"every interleaving of dispatchers and workers, every queue length and limit",
 "the worker-pool tests send one request at a time.",
 ["src/CTask.cpp","include/CTask.h"],"std::queue guarded by one mutex and one condition variable, worker loop")
p("C24","Reactor messages and timers fire exactly once, in order, and never after removal",
 "CEvent delivers every message added by any thread exactly once in order; each timer added fires once no earlier than its time and in time order, unless deleted before, and its bookkeeping (id index and time order) always agree. File event registration always reflects exactly the events last requested for each descriptor.",
 ["schedules","histories"],"every sequence of add/delete/fire, every time and id, every interleaving of message senders",
 "test/event adds a couple of timers and messages.",
 ["src/CEvent.cpp","include/CEvent.h"],"epoll descriptor, timer map and multiset, message queue under a lock with a wake-up pipe")
p("C25","Connections deliver outbound bytes in order and completely",
 "Bytes written to one connection through the network manager reach the socket completely, in order and without duplication whatever portions the kernel accepts, the unsent remainder being queued and sent before anything newer; a connection asked to close after writing closes only when everything is sent, and a write that cannot be queued completely is refused as a whole or closes the connection, so that bytes are never dropped in the middle.",
 ["histories","fault_sequences"],"every sequence of writes and every sequence of short writes, EAGAIN and errors from the kernel",
 "loopback tests never fill a socket buffer.",
 ["src/CCommMgr.cpp","src/CNetWorker.cpp"],"direct send followed by buffering the remainder in a per-connection CSocketBuf flushed on EPOLLOUT")
p("C26","Inbound streams are cut into packages exactly once and in order",
 "Whatever portions the kernel delivers a byte stream in, a connection with a package filter hands the handler exactly the consecutive complete packages of the stream, each once and in order, keeps the incomplete tail for later, and closes the connection when the filter reports an invalid package.",
 ["histories","fault_sequences"],"every stream content and every way of chopping it into reads",
 "each test request arrives in one read.",
 ["src/CCommMgr.cpp","src/CNetWorker.cpp"],"receive buffer plus filter loop removing each accepted package")
p("C27","Blocking TCP client transfers exact byte counts",
 "The TCP connector's send and exact-count receive transfer all requested bytes in order, retrying interrupted and partial calls, and report success only then; on timeout, error or peer close they report failure and never touch memory beyond the caller's buffer.",
 ["fault_sequences","inputs"],"every sequence of short reads and writes, interruptions and errors returned by the kernel",
 "no stable test uses the connector against a slow peer.",
 ["src/CTcpConnector.cpp","include/CTcpConnector.h"],"poll/select plus send/recv loops with a remaining-byte counter")
p("C28","Configuration file values are found under their section and key",
 "After loading a configuration file, every key=value line is returned under its section with surrounding blanks trimmed, comments and blank lines contribute nothing, missing keys yield the caller's default and numeric getters convert the stored text.",
 ["inputs"],"every configuration text",
 "no stable test loads a configuration.",
 ["src/CConfig.cpp","include/CConfig.h"],"line scanner with per-character states filling nested maps")
p("C29","Hash and byte helpers are pure functions of all their input bytes",
 "Hash of a byte string is h = 5*h + byte folded over every byte in order starting from zero, equal inputs hash equally for every overload, charToHex yields the two upper-case hex digits of its byte and hexToChar is its inverse for either case; sharded caches therefore route equal keys to one shard below the shard count.",
 ["inputs"],"every byte string, every integer, every byte",
 "not covered by any test.",
 ["include/Utils.h","include/CLruCache.h"],"polynomial byte hash, nibble arithmetic")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
if __name__=="__main__":
    import jsonschema
    try: s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    except OSError: s=None
    if s:
        for x in P: jsonschema.validate(x,s)
    print(len(P))
