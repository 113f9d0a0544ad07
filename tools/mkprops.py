#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that titles/statements are easy to review).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"hook_needed":None}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="src/buffer.rs";F="src/fqdn.rs";H="src/header.rs";K="src/packet.rs";Q="src/question.rs";R="src/resource.rs";M="src/rdata/mod.rs";D="src/rdata/dnssec.rs"
p("C01","Parsing any byte string terminates with a packet or an error",
 "Parsing an arbitrary byte string as a packet (or as any public wire structure: question, record, name, every kind of record data) always returns either a value or an error. It never panics or aborts, never loops, and the memory it takes stays bounded by a fixed multiple of the input plus what the 16-bit section counts can reserve.",
 ["inputs","configurations"],"every byte string handed to a parser, in every feature configuration",
 "The tests parse a handful of well-formed captures; truncations, hostile lengths and pointer graphs are never tried.",
 [B,K,R,Q,H,M],[("bounds-checked cursor","DnsBuffer::extract_*"),("compression pointer rule","DnsBuffer::extract_fqdn"),("per-type TryFrom<&mut DnsBuffer>","src/rdata/*")],observe=["Packet::try_from","RecordData::from"])
p("C02","Whatever was parsed can be inspected, printed and serialised safely",
 "For every packet that parsing accepts, all accessors, Debug/Display formatting, size computation and both serialisations (plain and compressed) run without panicking, and text produced from names is valid UTF-8.",
 ["inputs","configurations"],"every accepted byte string, every accessor",
 "Tests only inspect well-formed ASCII packets with defined response codes.",
 [F,H,K,R,M],[("Display for FQDN",F),("response_code/opcode accessors",H),("to_bytes of every RDATA","src/rdata/*")],observe=["Packet accessors","Display","to_bytes","to_bytes_compressed"])
p("C03","Built packets survive plain serialisation and parsing unchanged",
 "A packet built through the public API from representable values (labels of 1..63 octets, names up to 255 octets, character strings up to 255 octets, data up to 65535 octets) parses back from its plain wire form to the same header fields, the same questions and the same records in the same order and sections, with every field equal.",
 ["inputs","programs","configurations"],"all representable packets: every record type, field value, section and count",
 "Tests round-trip a few fixed packets; field widths, section boundaries, counts and rare types are not swept.",
 [K,Q,R,M],[("ByteConvertible::to_bytes","src/*"),("TryFrom<&mut DnsBuffer>","src/*")],observe=["Packet::to_bytes","Packet::try_from"])
p("C04","Compressed serialisation denotes the same message as plain serialisation",
 "For every packet, the compressed wire form decodes (with this library and with any standard decoder) to exactly the message the plain wire form decodes to: same header, counts, names and data, wherever and however often names or their suffixes repeat and however large the message is.",
 ["inputs","programs","configurations"],"all representable packets, all combinations of shared name suffixes, all message offsets",
 "Tests compress one or two packets whose names share one suffix at small offsets.",
 [K,F,R,M],[("suffix table passed through serialisation","FQDN::to_bytes_compressed"),("offset bookkeeping","*::to_bytes_compressed")],
 state=[("names","suffix -> offset already emitted","Packet::to_bytes_compressed")],observe=["Packet::to_bytes_compressed"])
p("C05","The announced byte size equals the number of bytes serialised",
 "For every wire structure, the size it announces equals the length of the bytes its plain serialisation produces.",
 ["inputs","configurations"],"all values of every serialisable public type",
 "Tests assert the size of a few values; buffers and length fields are sized from it for all values.",
 ["src/byteconvertible.rs",F,K,R,Q,M,"src/resource_record_set.rs"],[("ByteConvertible::byte_size","src/*")],observe=["byte_size","to_bytes"])
p("C06","Re-serialising a parsed message preserves it",
 "If a byte string parses as a packet whose expanded form fits the 16-bit length fields, serialising that packet (plain or compressed) and parsing the result yields an equal packet, and a second serialisation yields the same bytes again: forwarding a message through this library neither loses nor alters information the library understood.",
 ["inputs","histories","configurations"],"every accepted byte string; parse/serialise chains",
 "Tests re-serialise two or three captures.",
 [K,R,Q,H,M],[("parse","TryFrom"),("serialise","to_bytes / to_bytes_compressed")],observe=["Packet::try_from","Packet::to_bytes","Packet::to_bytes_compressed"])
p("C07","Names are decoded as RFC 1035 prescribes, pointers included",
 "Reading a name at any position of any buffer yields exactly the labels RFC 1035 defines, following compression pointers to earlier positions, and leaves the cursor just behind the name (behind the first pointer when one was followed). Truncated names, reserved label types, pointers that do not point backwards, pointer cycles and names above 255 octets are rejected with an error.",
 ["inputs"],"every buffer, every start position, every pointer graph",
 "Tests decode three captures, with one level of well-formed backward pointers.",
 [B,F],[("extract_fqdn",B)],observe=["DnsBuffer::extract_fqdn","DnsBuffer::position"])
p("C08","Record data is framed exactly by RDLENGTH, in both directions",
 "When parsing, a record's data is read only from the octets its RDLENGTH announces (compression pointers may point back), data needing more octets than announced is an error, and the next record starts right after them. When serialising (plain or compressed), the RDLENGTH written equals the number of data octets that follow.",
 ["inputs","configurations"],"every record type, every RDLENGTH, every following content, both serialisations",
 "Tests check one correct length per type; none varies RDLENGTH or what follows the record.",
 [R,M,B,"src/rdata/svcb.rs"],[("sub_buffer + advance","ResourceRecord::try_from"),("RDLENGTH emission","ResourceRecord::to_bytes*")],observe=["ResourceRecord::try_from","to_bytes"])
p("C09","Section edits behave like lists and the emitted counts match",
 "After any sequence of packet operations (create, add, set, take, in-place edit, header replacement, parse), each section holds exactly what list semantics prescribe, other sections and header flags are untouched, and both serialisations carry the four section counts equal to the section lengths.",
 ["histories","configurations"],"all operation sequences on a packet",
 "Tests use single add/set calls; take, mixed and repeated operations and header replacement are not tested.",
 [K,H],[("count maintenance","Packet::{add,set,take}_*"),("count patching","Packet::to_bytes / to_bytes_compressed")],
 state=[("section vectors + header counts","must agree when serialised","Packet")],observe=["Packet::{questions,answers,authorities,additionals}","to_bytes"])
p("C10","Header fields live in their RFC bits and setters touch nothing else",
 "From any header (all 2^16 flag words, any id), each getter reads the bits RFC 1035 assigns to it and each setter changes exactly its own field, except the documented coupling: setting a non-zero response code or recursion-available marks the message a response, and marking it a query clears both. Serialising and parsing a header preserves all sixteen flag bits and the id.",
 ["inputs","histories"],"all flag words, all ids, all setter sequences",
 "Tests look at one or two flag words.",
 [H,K],[("FlagBitfield",H),("setters",H)],state=[("flags","16 flag bits","Header::flags")],observe=["Header/Packet getters and setters","Header::to_bytes"])
p("C11","Code points map one-to-one to their registered meaning",
 "For every numeric code point of every enumerated protocol field (record/query type and class, opcode, response code, and the per-type enumerations), conversion yields the variant registered for that number or an error for unassigned numbers, and converting back yields the same number. A record parsed with type T carries data of T's variant, and data built for T reports T.",
 ["inputs","configurations"],"all 65536 (or 256) values of each enumeration, all feature sets",
 "Tests use about a dozen code points.",
 [R,Q,H,M,D,"src/rdata/tkey.rs","src/rdata/tsig.rs","src/rdata/tlsa.rs","src/rdata/sshfp.rs","src/rdata/dhcid.rs","src/rdata/naptr.rs"],[("TryFrom<u16>/From<..> tables","src/resource.rs, src/question.rs, src/rdata/*"),("dispatch","RecordData::from")],observe=["TryFrom/From","record_type"])
p("C12","Record data decodes to the values its RFC layout defines",
 "For every record type, parsing data octets yields exactly the field values defined by that type's published layout, and data that violates the layout (truncated, inner lengths exceeding the data, invalid enumerated values) is rejected with an error.",
 ["inputs","configurations"],"every data octet string of every supported type",
 "Tests parse one or two samples per type, several types none.",
 [M,"src/rdata/*.rs"],[("TryFrom<&mut DnsBuffer> per type","src/rdata/*")],observe=["RecordData::from","fields"])
p("C13","Record data encodes to the octets its RFC layout defines",
 "For every record type and every representable field value, serialisation produces exactly the octets of that type's published wire layout, and every message is the header followed by its sections in order, each record as owner name, type, class, TTL, RDLENGTH and data.",
 ["inputs","configurations"],"all representable values of all supported types",
 "Tests compare one byte string per type at most.",
 [M,"src/rdata/*.rs",R,Q,K],[("ByteConvertible::to_bytes per type","src/rdata/*")],observe=["to_bytes"])
p("C14","The read cursor never leaves its buffer and failed reads consume nothing",
 "For any buffer and any sequence of cursor operations (reads, peeks, advances, repositioning, sub-buffers) with any lengths including huge ones, every operation either returns exactly the octets at the cursor and moves by exactly their number, or fails. A failed fixed-length read, peek, advance, reposition or sub-buffer leaves the cursor unchanged, and remaining plus position always equals the buffer length.",
 ["histories","inputs"],"all operation sequences and lengths on a cursor",
 "One test performs four operations.",
 [B],[("length checks",B)],state=[("pos","cursor",B)],observe=["DnsBuffer methods"])
p("C15","Record sets serialise in canonical order, independent of input order",
 "Serialising a record set emits every record once, each as full record with the set's owner, type, class and TTL and exact RDLENGTH, sorted by data octets; every permutation of the same records gives identical bytes, and the explicit reorder operation produces that same order while keeping all records.",
 ["inputs","histories"],"all record sets and all permutations",
 "One fixed set is signed in tests; permutations, duplicates and prefix-related data are not tried.",
 ["src/resource_record_set.rs"],[("binary-search insertion","ResourceRecordSet::to_bytes"),("sort","canonical_reorder")],observe=["ResourceRecordSet::to_bytes","records"])
p("C16","A signature made with a key verifies with it, and only for what was signed",
 "For every supported algorithm, signing a record set yields a signature over the RFC 4034 signing input that verifies under the matching public key for the same records in any order, and carries the validity times in seconds, original TTL, label count, key tag and signer of its inputs. Verification fails (false or error) when any octet of the signature, of the covered signature fields, of the public key, or of the signed records' owner, type, class or data is changed.",
 ["inputs","programs"],"all supported algorithms, record sets, single-octet alterations of every covered field",
 "Tests cover four algorithms on one set and never alter anything.",
 [D,"src/resource_record_set.rs"],[("from_dnskey / sign_data",D),("verify",D)],observe=["Rrsig::from_dnskey","Rrsig::verify"])
p("C17","Key tags and digests are computed as the RFCs define",
 "The key tag of a public key, the digest of a delegation record for each digest type, and the digest of a client identifier record equal the values the RFC algorithms define over the exact wire form (owner names in canonical lower case), for all flags, algorithms, key lengths and owner names.",
 ["inputs"],"all keys, owner names, identifiers",
 "Tests check one key per digest type and one identifier.",
 [D,"src/rdata/dhcid.rs"],[("compute_key_tag",D),("DigestType::hash_data",D),("Dhcid::new","src/rdata/dhcid.rs")],observe=["Ds::try_from_dnskey","Rrsig::key_tag","Dhcid::new"])
p("C18","Compression is disciplined: backward, in range, permitted, never larger",
 "Every compression pointer the library emits targets the start of a label emitted earlier in the same message at an offset below 16384, appears only in owner and question names or in data of types for which the library declares compression allowed, and the compressed form is never longer than the plain one. A name whose full text already appeared as a name at a reachable offset is not spelled out again.",
 ["inputs","programs","configurations"],"all representable packets and offsets",
 "Tests compare one compressed packet.",
 [F,R,K,M],[("to_bytes_compressed",F),("compression_allowed",R)],observe=["Packet::to_bytes_compressed"])
p("C19","Class bit 15 carries the mDNS flag with mdns on, never elsewhere",
 "With the mdns feature, the top bit of a question's class and of a record's class is read and written as unicast-response and cache-flush respectively, leaving the class unchanged; new questions and records have it clear. In every feature configuration the EDNS payload size of an OPT record keeps all sixteen bits through parsing and serialisation, and messages without that bit encode identically in all configurations.",
 ["inputs","configurations"],"all class words, both flags, both serialisations, all feature configurations",
 "No test sets either flag or a large payload size.",
 [Q,R],[("class/flag fusing",Q),("class/flag fusing",R)],observe=["unicast_response","cache_flush","class","to_bytes*"])
p("C20","Domain name values behave as label sequences",
 "Names built from text, label lists or wire octets expose the same label sequence: empty components of a textual name are ignored and empty labels never reach the wire, label count, length, emptiness, root and link-local tests and iteration agree with the labels, text conversion joins them with dots, appending adds one label at the end, and comparison is equality and label-wise order.",
 ["inputs","histories"],"all names and edit sequences",
 "Tests use four names.",
 [F],[("FQDN constructors and accessors",F)],observe=["FQDN methods"])
p("C21","Serialisation is deterministic, has no side effects and prints nothing",
 "Serialising or sizing the same value repeatedly, in any order, from a clone, or from an equal value built in another order gives identical bytes, leaves the value equal to what it was, and parsing or serialising never writes to standard output or standard error.",
 ["inputs","histories","programs"],"all packets, all interleavings of serialise/size/clone calls",
 "Tests serialise each value once and ignore output.",
 [K,M,"src/rdata/opt.rs","src/rdata/tsig.rs"],[("&self serialisers","src/*"),("option map order","src/rdata/opt.rs")],observe=["to_bytes","to_bytes_compressed","stdout/stderr"])
p("C22","Type bitmaps hold exactly the set of types, in canonical windows",
 "For every set of record types, the NSEC and CSYNC bitmaps list exactly that set: windows strictly ascending, each 1..32 octets without trailing zero octets and without empty windows, bit 0 the most significant. Parsing any bitmap yields exactly the set bits or an error, and window lengths above 32 are rejected.",
 ["inputs","configurations"],"all sets of supported types; all bitmap octets",
 "Tests encode three sets.",
 ["src/rdata/csync.rs",D],[("window encoder/decoder","src/rdata/csync.rs, src/rdata/dnssec.rs")],observe=["Csync/Nsec to_bytes, try_from"])
p("C23","Errors can always be reported",
 "Every error the library returns formats without panicking to non-empty text that carries its payload, and walking its chain of causes terminates without revisiting the error itself.",
 ["inputs"],"every error kind and payload, every failing input",
 "No test formats an error or walks its causes.",
 ["src/error.rs"],[("Error::source / Display","src/error.rs")],observe=["std::error::Error::source","Display"])
p("C24","Questions, records and data hold exactly what they are given",
 "A question, record, record set or record data returns through its accessors exactly the values it was constructed with or last set to; each setter or field assignment changes its own attribute only, in any order and number of edits, including turning a record of one type into any other. A value edited into some content is equal to, and serialises like, one constructed with that content.",
 ["histories","inputs"],"all edit histories, all ordered pairs of record types, all fields of all types",
 "Tests construct values once and never edit them.",
 [R,Q,M,"src/rdata/*.rs","src/resource_record_set.rs"],[("constructors, setters and accessors",R),("constructors, setters and accessors",Q),("public fields and typed accessors","src/rdata/*.rs")],observe=["ResourceRecord, Question, ResourceRecordSet, RecordData accessors","to_bytes*"])
p("C25","Equality means equal content",
 "Two questions, records, record data, headers or packets are equal exactly when their content is: any difference in a single field, octet, entry, order or length makes them unequal, and values with the same content are equal however they came about (letter case of names aside). Clones are equal to their originals, and equality is symmetric and the negation of inequality.",
 ["inputs"],"all pairs of values",
 "Tests compare a value only with its own round trip, which an equality that ignores a field passes.",
 [R,Q,K,H,F,M],[("PartialEq of the value types","src/*.rs, src/rdata/*.rs")],observe=["==","!="])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
