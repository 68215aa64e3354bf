#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PL="src/psrpcore/_payload.py"; B="src/psrpcore/_base.py"; S="src/psrpcore/types/_serializer.py"; PR="src/psrpcore/types/_primitive.py"
CL="src/psrpcore/_client.py"; SV="src/psrpcore/_server.py"; CR="src/psrpcore/_crypto.py"; EV="src/psrpcore/_events.py"; HO="src/psrpcore/_host.py"
TB="src/psrpcore/types/_base.py"; TH="src/psrpcore/types/_host.py"; TC="src/psrpcore/types/_complex.py"; TP="src/psrpcore/types/_psrp.py"
CO="src/psrpcore/types/_collection.py"; EN="src/psrpcore/types/_enum.py"; CX="src/psrpcore/_clixml_shell.py"; CM="src/psrpcore/_command.py"; PI="src/psrpcore/_pipeline.py"

prop("C01","Message framing is lossless and follows the documented layout",
 "Packing a message writes a little-endian header of 40 bytes - destination (2 when sent by a client, 1 when sent by a server), message type, runspace pool id, pipeline id (all zero when there is none), the ids in GUID byte order - followed by the unchanged body. Unpacking gives back exactly the destination, type, pool id, pipeline id (no pipeline id for the all-zero id) and body that were packed, only a leading UTF-8 byte order mark of the body being dropped.",
 ["inputs"],"Every sender side, message type, pool id, optional pipeline id and body of any length and content.",
 "The tests pack a few fixed messages; a field that is swapped, truncated or sign-extended for some id, type or body content passes them.",
 [PL],[("pack a message",PL+":create_message"),("unpack a message",PL+":unpack_message")],observe=["bytes produced for a message","fields of an unpacked message"])
prop("C02","Fragment framing is lossless and follows the documented layout",
 "Packing a fragment writes a big-endian header of 21 bytes - object id, fragment id, a byte with the start bit (1) set only for fragment id 0 and the end bit (2) set only for the last fragment, and the data length - followed by the unchanged data. Unpacking a buffer that starts with such a fragment gives back its object id, fragment id, start flag, end flag and data exactly, whatever bytes follow it.",
 ["inputs"],"Every 64-bit object and fragment id, end flag, data of any length and content, and any trailing bytes.",
 "The tests use small ids and short data; wrong widths, byte order, flag bits or length handling for large values are not reached.",
 [PL],[("pack a fragment",PL+":create_fragment"),("unpack a fragment",PL+":unpack_fragment"),("cut a fragment from a message",PL+":PSRPMessage.fragment")])
prop("C03","Outgoing data is fragmented without loss, reordering or oversize",
 "Each payload taken from a pool is at most the requested number of bytes, contains whole fragments of queued messages in the order they were queued, and carries only messages of one pipeline target and one stream type, which the payload is labelled with. Taking payloads until none is left, with any sequence of sizes, emits every queued message exactly once: its fragments have consecutive ids starting at 0, their data concatenates to the message, and only the last one has the end flag. A size below 22 is rejected with a ValueError and changes nothing, and nothing is returned only when nothing is queued.",
 ["inputs","histories"],"Every sequence of queued messages (any lengths, pipeline targets, stream types) interleaved with any sequence of size limits of 22 or more, or no limit.",
 "The tests cover a few message/limit combinations; off-by-one sizes at fragment boundaries, targets changing between messages and partially sent messages form an unbounded space.",
 [B,PL],[("packs fragments into a payload",B+":RunspacePool.data_to_send"),("removes data from a message",PL+":PSRPMessage.fragment"),("queues a message with the next object id",B+":RunspacePool.prepare_message")],
 state=[("send buffer","messages not yet fully sent",B+":RunspacePool._send_buffer")],observe=["payload bytes, stream type and pipeline id"])
prop("C04","Incoming fragments reassemble to exactly the messages that were sent",
 "However the bytes of a valid fragment stream are split into received chunks, and however the fragments of different messages are interleaved, each message is reported as exactly one event, with its original type, pool id, pipeline id and content, in the order in which the messages were completed, and no event is reported before its last fragment has fully arrived. A fragment whose id is not the next one expected for its message is rejected with an error instead of being merged.",
 ["inputs","histories","schedules"],"Every set of messages, every fragmentation, every interleaving of fragments of different messages and every split of the byte stream into chunks, with event polling at any point.",
 "The tests feed whole payloads; partial headers, partial bodies, interleaved messages and polling between chunks are combinatorial.",
 [B,PL],[("buffers and reassembles fragments",B+":RunspacePool.next_event"),("adds received data",B+":RunspacePool.receive_data"),("unpacks a fragment",PL+":unpack_fragment"),("unpacks a message",PL+":unpack_message")],
 state=[("receive buffer","bytes not yet unpacked",B+":RunspacePool._receive_buffer"),("incoming fragments","partial messages",B+":RunspacePool._incoming_fragments")])
prop("C05","String escaping is reversible and safe for XML",
 "Every string, including control characters, lone surrogates, characters outside the basic plane and text that looks like an escape sequence, deserializes after serialization to a string with the same UTF-16 code units. The serialized text contains only characters that XML 1.0 can carry unchanged, and this holds wherever text is carried: string values, property names and the string representation of objects.",
 ["inputs"],"Every sequence of code points from U+0000 to U+10FFFF, surrogates included, of any length.",
 "The tests use a handful of literal strings; adjacency of escape-like text and special characters has unbounded combinations.",
 [S],[("escapes a string",S+":_serialize_string"),("unescapes a string",S+":_deserialize_string")])
prop("C06","Fixed-width integers never leave their range and keep their type",
 "A fixed-width integer value can only be created with a value inside the range of its type (8, 16, 32 or 64 bits, signed or unsigned); anything outside raises a ValueError, whatever the source value is (int, text, enum member, other integer type). Arithmetic, bitwise and unary operations on such a value as left operand (powers with a non-negative exponent) give the mathematically exact result in the same type, or raise ValueError when the result does not fit.",
 ["inputs"],"All eight integer types, all integers as source value and operands, all operators the types define.",
 "The tests check some boundary values per type and few operators; the claim is about all operand pairs and source kinds.",
 [PR],[("range check on creation",PR+":PSIntegerBase.__new__"),("operators rebuild the type",PR+":PSIntegerBase.__add__ and following")])
prop("C07","Scalar values keep their type and value across serialization",
 "A boolean, integer of any fixed width, plain integer that fits in 64 signed bits, character, byte string, GUID, version, finite floating point or decimal number, URI, XML document or script block that is serialized and deserialized comes back as the same type (plain Python values as their documented counterpart) with an equal value. Null comes back as null.",
 ["inputs"],"Every value of every scalar type, including the extremes of each range.",
 "The tests serialize a few sample values per type; wrong element choice or text form at a boundary is only visible for particular values.",
 [S,PR],[("element and text for a scalar",S+":_Serializer.serialize"),("value for an element",S+":_Serializer.deserialize"),("element tag registry",TB+":TypeRegistry")])
prop("C08","Durations round trip exactly at 100 nanosecond resolution",
 "Serializing any time span that is a multiple of 100 nanoseconds in the .NET range, positive or negative, gives a valid ISO 8601 duration whose deserialized value is exactly equal to the original. A span with finer resolution is rounded down to the 100 nanoseconds below it.",
 ["inputs"],"Every number of 100 ns ticks from -2^63 to 2^63-1, and every finer nanosecond value in between.",
 "The tests sample some durations; digit trimming, sign and carry errors appear only for particular digit patterns.",
 [S,PR],[("writes a duration",S+":_serialize_duration"),("reads a duration",S+":_deserialize_duration"),("nanosecond total",PR+":_timedelta_total_nanoseconds")])
prop("C09","Date times round trip exactly at 100 nanosecond resolution",
 "Serializing any date and time from year 1 to 9999 with microsecond and 100 nanosecond parts, naive or with a UTC offset of whole minutes, gives text whose deserialized value has the same calendar fields, the same microsecond and 100 nanosecond parts and the same UTC offset (or none).",
 ["inputs"],"Every calendar date, time of day, tick fraction and UTC offset between -23:59 and +23:59, or no offset.",
 "The tests use a few instants; padding, fraction and offset formatting depend on the digits of each field.",
 [S,PR],[("writes a date time",S+":_serialize_datetime"),("reads a date time",S+":_deserialize_datetime"),("date time with nanoseconds",PR+":PSDateTime")])
prop("C10","Object graphs keep structure, order, properties and references",
 "Lists, stacks, queues, enumerables, dictionaries, enum and flag values and objects with adapted and extended properties, nested in any way, deserialize to the same kinds of value with the same elements in the same order, the same keys and values and the same property names and values. An object that is reached more than once, even from inside itself, comes back as one object, and different objects stay different even when they compare equal (lists, stacks, enumerables and dictionaries are values without identity: each place gets its own equal copy). Type names and string representations of objects belong to the object they were set on. Enum members are the numbers the protocol and .NET assign to them.",
 ["inputs"],"Every finite graph of the supported containers, objects, enums and scalars, including shared and cyclic object references.",
 "The tests contain particular trees; the combination of nesting, sharing, equal-but-distinct objects and type name reuse is unbounded.",
 [S,CO,EN,TB],[("serializes a value",S+":_Serializer.serialize"),("deserializes an element",S+":_Serializer.deserialize"),("object references",S+":_Serializer._get_ref_id"),("type name references",S+":_Serializer._tn_ref_list")])
prop("C11","Serialization has no side effect on the value",
 "Serializing a value leaves the value as it was - the contents and order of its containers, queues included, its properties, type names and string representation - so that serializing it again gives the same result. The same holds when the serialization fails part way.",
 ["inputs","histories"],"Every serializable value, serialized any number of times, alone or as part of a larger value.",
 "The tests serialize each value once and look at the output, not at the value.",
 [S,TC,TH,CM,PI],[("serializes a value",S+":_Serializer.serialize"),("conversion before remoting",TC+":ToPSObjectForRemoting")])
prop("C12","Secure strings only leave encrypted and decrypt to the original",
 "The serialized form of a secure string is its encryption under the session key and never contains its plain text; without a session key serialization fails with the missing cipher error and queues nothing. Decrypting the deserialized value with the same key gives back exactly the original text, for every text including surrogates and the empty string, and an already encrypted value is passed on unchanged. The password of a credential is a secure string, also when it is given as plain text.",
 ["inputs","histories"],"Every text, every 256-bit session key, before and after the key exchange.",
 "The tests encrypt a few ASCII strings; block boundary lengths, non-BMP text and the no-key paths are not covered.",
 [CR,PR,S],[("encrypts and decrypts",CR+":PSRemotingCrypto"),("secure string conversion",PR+":PSSecureString"),("secure string element",S+":_Serializer.serialize")])
prop("C13","Key exchange gives both peers the same session key",
 "The public key blob a client sends has the documented header and encodes its modulus and exponent exactly; the server recovers that same public key from it. The session key the server encrypts to it is what the client decrypts, so after the exchange each peer decrypts what the other encrypted, and the exchange runs at most once however often it is requested.",
 ["inputs","histories"],"Every 2048-bit RSA modulus, every session key, every order and number of exchange requests from either side.",
 "Key pairs are random: the tests sample one modulus per run, and byte order or truncation errors can depend on its bytes.",
 [CR,CL,SV],[("public key blob",CR+":create_keypair"),("session key encryption",CR+":encrypt_session_key"),("session key decryption",CR+":decrypt_session_key"),("client side of the exchange",CL+":ClientRunspacePool.exchange_key"),("server side of the exchange",SV+":ServerRunspacePool._process_PublicKey")])
prop("C14","Operations in the wrong state fail and change nothing",
 "Every pool and pipeline operation that the documentation limits to certain states raises the documented state error, naming the current state, when it is called in any other state, and an operation that needs a newer protocol version than the peer's raises the version error. A rejected operation queues no data and leaves state, counters and tables as they were, while in an allowed state the operation is accepted.",
 ["histories","inputs"],"Every operation of the client and server pool and pipelines in every pool state, pipeline state and peer protocol version.",
 "The tests try single wrong states for some operations and only check that an error is raised.",
 [B,CL,SV,"src/psrpcore/_exceptions.py"],[("pool guards",B+":RunspacePool.close/disconnect/reconnect"),("client guards",CL+":ClientRunspacePool"),("server guards",SV+":ServerRunspacePool"),("pipeline guards",SV+":ServerPipeline")])
prop("C15","Opening or connecting a pool transfers the session settings",
 "After a client opens a pool and both sides have exchanged their messages in any chunking, both are opened, have the same pool id, runspace limits, and each other's protocol versions; the server has the client's host information, application arguments, apartment state and thread options, and the client has the server's application private data. A disconnected pool that is connected to again ends opened on both sides with the server's limits known to the client (limits the connecting client asks for become the server's first), and a connection for another pool id is refused.",
 ["histories","configurations","schedules"],"Every combination of pool settings, every payload size limit and message delivery chunking, open, disconnect, reconnect and connect.",
 "The tests use one default configuration with whole payload delivery.",
 [B,CL,SV,TP,TH],[("client open/connect",CL+":ClientRunspacePool.open"),("server init",SV+":ServerRunspacePool._process_InitRunspacePool"),("server connect",SV+":ServerRunspacePool._process_ConnectRunspacePool"),("capability exchange",B+":RunspacePool._process_SessionCapability")])
prop("C16","Requests and responses are correlated by unique call ids",
 "Every request a pool makes that expects an answer gets a call id not used before since the pool was last connected; the answer is matched to the request with that id only, so answers may arrive in any order. A runspace limit changes on either side only after a positive answer to that very request, to exactly the requested value; a host call is answered with its own method and pipeline target, can be answered once, and calls without a result use the reserved id and expect no answer.",
 ["histories","inputs"],"Every sequence of limit changes, availability queries, resets and host calls, for the pool or any pipeline, answered in any order with any result.",
 "The tests make one request at a time and answer it immediately.",
 [CL,SV,B],[("client requests",CL+":ClientRunspacePool.set_max_runspaces"),("client answer matching",CL+":ClientRunspacePool._process_RunspaceAvailability"),("server answers",SV+":ServerRunspacePool.runspace_availability_response"),("host call",SV+":ServerRunspacePool.host_call"),("host answer",CL+":ClientRunspacePool.host_response")],
 state=[("call id counter","next unused id",B+":RunspacePool._ci_count")])
prop("C17","Pipelines follow their life cycle on both sides",
 "Every state change of a server pipeline is sent to the client with that state and pipeline id and, when received, is the state of the client's pipeline with that id and of no other pipeline. A pipeline stays known to its pool from creation until it is closed, closing is refused while it runs and forgets only that pipeline, a pool cannot be closed while it knows pipelines, a pipeline definition for an id the server does not know is refused, and a state change for an id the client does not know changes no pipeline.",
 ["histories"],"Every number of pipelines and every interleaving of start, output, stop, complete and close on them.",
 "The tests follow single pipelines along the normal path.",
 [B,CL,SV],[("pipeline table",B+":Pipeline.__init__"),("closing",B+":Pipeline.close"),("server state change",SV+":ServerPipeline._change_state"),("client state update",CL+":ClientRunspacePool._process_PipelineState")],
 state=[("pipeline table","open pipelines by id",B+":RunspacePool.pipeline_table")])
prop("C18","Pipeline definitions reach the server complete and in order",
 "The pipeline a server receives has the same commands in the same order as the client built, each with the same text, script flag, scope setting, parameters (names, values, order, positional arguments) and end of statement marks (the last command always ends a statement), and the same pipeline options. Stream redirections and merge settings arrive unchanged when the peer's protocol version supports them, and are left out, not sent, for older peers. Command metadata queries keep their names, types, namespaces and arguments.",
 ["inputs","programs","configurations"],"Every list of commands, parameters, statement separators, redirections and options, for every protocol version.",
 "The tests build a few pipelines; statement partitioning and version gating combine without bound.",
 [CM,PI,CL,EV],[("command conversion",CM+":Command.ToPSObjectForRemoting"),("command restoration",CM+":Command.FromPSObjectForRemoting"),("pipeline conversion",PI+":PowerShell.ToPSObjectForRemoting"),("pipeline restoration",PI+":PowerShell.FromPSObjectForRemoting"),("building",CL+":ClientPowerShell")])
prop("C19","Host calls carry their parameters and results unchanged",
 "A host method called by a server arrives at the client as that method with equal parameters in the same order, and the client's answer arrives as an equal result, for every host method. Colours, coordinates, sizes, rectangles, keys, choices, fields, credentials and two dimensional arrays of cells of any non-empty rectangular shape keep all their parts (a field its name, label, parameter types, help message and mandatory flag).",
 ["inputs"],"Every host method, every parameter and result value, every non-empty rectangular cell array.",
 "The tests call each method with one set of values and small arrays.",
 [HO,EV,TH],[("server calls",HO+":ServerHostRequestor"),("client answers",HO+":ClientHostResponder"),("parameter decoding",EV+":_decode_host_call_parameters"),("result decoding",EV+":_decode_host_resp_result"),("array encoding",HO+":_create_multi_dimensional_array"),("array decoding",EV+":_unpack_multi_dimensional_array")])
prop("C20","Stream records reach the client with all their fields",
 "Output objects and error, debug, verbose, warning, progress and information records a server pipeline writes arrive at the client as one event each of the matching kind, for that pipeline, in the order written, with equal fields, including empty strings and absent optional fields. Invocation information given with a record arrives with it (except the position message, command path and script root, which PowerShell derives).",
 ["inputs","histories"],"Every sequence of records with any field values, optional parts present or absent.",
 "The tests write one record of each kind with typical values.",
 [SV,EV,TC,S],[("writing records",SV+":ServerPipeline.write_error"),("record conversion",TC+":ErrorRecord"),("invocation info conversion",TC+":_invocation_info_to_ps_object"),("progress record element",S+":_deserialize_progress_record"),("record events",EV+":ErrorRecordEvent")])
prop("C21","CLIXML documents keep values, order and stream of every entry",
 "Serializing a list of values, each optionally tagged with a stream, to CLIXML and reading it back gives the same values in the same order with the same streams (output when untagged), for every list including the empty one, with or without the CLIXML marker. A CLIXML shell emits everything written since the last time exactly once, in order, with the marker in front of the first text it emits, and the reader sorts the entries of all documents into their streams. Secure strings in these documents decrypt to the text they held.",
 ["inputs","histories"],"Every list of values and streams, every sequence of writes and reads of the shell.",
 "The tests check fixed documents; interleaved writes, empty reads and stream mixes are unbounded.",
 [S,CX],[("writes CLIXML",S+":serialize_clixml"),("reads CLIXML",S+":deserialize_clixml"),("shell buffer",CX+":ClixmlShell.data_to_send"),("stream sorting",CX+":ClixmlOutput.from_clixml")])
prop("C22","Dynamic properties resolve consistently and per instance",
 "A property of an object reads back the value last set to it, converted to the declared type of the property when it has one; an extended property takes precedence over an adapted one of the same name, aliases and script properties go through their target or functions, and a property cannot be added over an existing name unless forced. Properties and type names of one instance are never affected by another instance or by setting values on one created from the same class, and creating an object rejects unknown, repeated and missing mandatory properties.",
 ["inputs","histories","programs"],"Every class with any set of declared properties, any sequence of property additions, reads and writes on any instances.",
 "The tests use small fixed classes and a couple of operations.",
 [TB],[("attribute lookup",TB+":PSObject.__getattribute__"),("attribute setting",TB+":PSObject.__setattr__"),("instance metadata",TB+":PSObjectMeta.set_instance"),("adding members",TB+":add_member"),("value conversion",TB+":PSPropertyInfo.set_value")])
prop("C23","Version order and nanosecond time arithmetic are exact",
 "Versions compare by major, minor, build and revision numerically, a version with fewer parts ordering before one that extends it; equal versions, and equal durations, have equal hashes and parsing the text of a version gives an equal version. Adding and subtracting durations and date times with nanoseconds, on either side of a plain duration or date time, gives the exact result with nanoseconds carried (a sum that starts from a plain date time stays a plain date time), comparisons of durations agree with their exact length, and subtracting two date times then adding the difference gives back the first.",
 ["inputs"],"All versions of two to four parts, all durations and date times within range with any nanosecond part from 0 to 999.",
 "The tests compare some pairs; carries and mixed-length comparisons depend on the values.",
 [PR],[("version comparison",PR+":PSVersion._cmp"),("duration arithmetic",PR+":PSDuration"),("date time arithmetic",PR+":PSDateTime.__add__")])
prop("C24","Types are restored by their first type name, others are marked",
 "An object whose first type name belongs to a registered type that may be restored deserializes to an instance of that type with its own type names; any other object deserializes to a plain object whose type names are the original ones in order, each prefixed with 'Deserialized.'. A test for a type name is true exactly when one of the object's type names equals a requested one, the prefix being ignored only on request, and the first type registered for a name or element keeps it.",
 ["inputs","configurations"],"Every list of type names, every set of registered types and registration order.",
 "The tests use a few registered types and names.",
 [TB,S],[("restoring a type",TB+":TypeRegistry.rehydrate"),("registering a type",TB+":PSType.__call__"),("type test",TB+":ps_isinstance"),("use in deserialization",S+":_Serializer.deserialize")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,p['id']
print(len(P))
