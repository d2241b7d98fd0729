#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json,os
L='libs/egts/'
S='cli/receiver/server/server.go'
ST='cli/receiver/storage/'
leafs=[L+'egts_sr_%s.go'%x for x in ('pos_data','ext_pos_data','ad_sensors_data','counters_data','abs_cntr_data','abs_an_sensors_data','liquid_level_sensor','state_data','term_identity','auth_info','dispatcher_identity','response','result_code','egtsplus_data')]
cont=[L+'egts_pkg.go',L+'egts_pt_response.go',L+'service_data_records.go',L+'record_data.go']
conns=[ST+'store/%s/connector.go'%x for x in ('nats','nsq','postgresql','rabbitmq','redis','tarantool_queue')]
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p('C01','Malformed input never crashes the decoder',
 'For every byte string, decoding it as a packet, a packet response, a set of service records, a set of sub-records or any single sub-record either yields a value or returns an error. It never panics: no out-of-range access, no nil dereference, no failed type assertion, no explicit panic.',
 ['inputs'],'all byte strings of all lengths, for the packet decoder and every section decoder',
 'The tests decode about twenty well-formed packets; none is truncated, has a wrong header length or an oversized length field.',
 cont+leafs,[('header length / checksum range','libs/egts/egts_pkg.go (*Package).Decode'),('per-field error returns','every Decode method')],['return value of Decode, absence of panic'])
p('C02','Truncated data is rejected, never padded or invented',
 'Whenever decoding a packet or section succeeds, every decoded field was taken completely from bytes that are present in that section; if the data ends inside a mandatory field, or inside an optional field whose presence flag is set, decoding returns an error. A record or sub-record whose length field claims more bytes than its container still holds is an error too (the one tolerated case is a last record whose data part is missing entirely). Conversely, complete and valid data is not rejected.',
 ['inputs'],'every section type, every truncation point, every combination of presence flags',
 'No test feeds truncated data, so a short read that leaves old or zero bytes in a field is invisible.',
 cont+leafs,[('full reads with error returns','every Decode method'),('length-delimited sub-slices','libs/egts/record_data.go, libs/egts/service_data_records.go')],['decoded struct, error'])
p('C03','Every field is decoded from the bytes and bits the EGTS standard assigns',
 'After a successful decode each field of the packet header, of each service record and of each sub-record equals the value that the EGTS layout (field order, width, little-endian byte order, flag-bit position, scale and epoch) assigns to it in the input. An optional field is read exactly when its own presence flag is set, and the fields after it shift accordingly; a field whose flag is clear is left untouched.',
 ['inputs'],'all values of every field and all combinations of presence flags of every section',
 'Each section is tested with one byte string, with most optional fields absent or zero; wrong bit, byte order, order of fields or flag stay invisible.',
 cont+leafs,[('Decode methods','libs/egts/*.go')],['decoded struct fields'])
p('C04','Every field is encoded into the bytes and bits the EGTS standard assigns',
 'Encoding a packet header, service record or sub-record whose flags are well formed and whose values lie within the ranges of the standard yields exactly the EGTS layout: each field in its place, with its width, little-endian byte order, flag-bit position, scale and epoch. An optional field is written exactly when its own presence flag is set; fixed-width text and identifier fields always occupy their full width.',
 ['inputs'],'all values of every field and all combinations of presence flags of every section',
 'One golden byte string per section; combinations of optional fields and asymmetric flag patterns are never encoded.',
 cont+leafs,[('Encode methods','libs/egts/*.go')],['bytes returned by Encode'])
p('C05','Type codes select the same section when decoding and when encoding',
 'Each sub-record type code of the standard that the library implements is decoded into the section with that name, and a section added to a record set without an explicit code is written with its own standard code, so every section kind that can be decoded can also be encoded. Type 20 is accepted only with a length of 5 bytes as state data. Unknown codes, unknown packet types and sections without a code are reported as errors, never skipped.',
 ['inputs'],'all 256 sub-record type codes, all packet types, all section kinds',
 'Tests use about ten of the 256 codes, nearly always with an explicit code on the encoding side.',
 [L+'record_data.go',L+'egts_pkg.go',L+'const_types.go'],[('type switch','libs/egts/record_data.go'),('packet type switch','libs/egts/egts_pkg.go')],['dynamic type of decoded sub-record, type byte written'])
p('C06','No packet is accepted unless both checksums match',
 'Decoding a packet that has a data part succeeds only if the CRC-8 of exactly the header bytes before the checksum byte equals the received header checksum and the CRC-16 of exactly the data part equals the received data checksum, and only if the header length field equals the real header size. Encoding writes those two checksums over exactly these ranges.',
 ['inputs'],'all packets, with and without routing fields, all lengths of data part',
 'Only packets with correct checksums and without routing fields are decoded in tests.',
 [L+'egts_pkg.go',L+'crc.go'],[('checksum comparisons','libs/egts/egts_pkg.go (*Package).Decode'),('checksum writes','libs/egts/egts_pkg.go (*Package).Encode')],['error of Decode, bytes of Encode'])
p('C07','The checksum functions compute the standard CRCs for every input',
 'The header checksum is CRC-8 with polynomial 0x31 and initial value 0xFF, the data checksum is CRC-16 with polynomial 0x1021 and initial value 0xFFFF, both most significant bit first, unreflected and without final inversion, taken over every byte of the input in order.',
 ['inputs'],'byte strings of every length and content',
 'One test vector per function.',
 [L+'crc.go'],[('bitwise CRC loops','libs/egts/crc.go')],['checksum value'])
p('C08','Length fields written always equal the bytes that follow them',
 'In every successfully encoded packet, the data-length field, each record-length field and each sub-record-length field equal the number of bytes of the part they describe, whatever the caller put into the corresponding struct field. A part too long for its 16-bit length field makes encoding fail instead of wrapping, and the length a section reports equals the size of its encoding.',
 ['inputs'],'all packet contents, including re-encoding of decoded and then modified packets',
 'Tests encode structures whose length fields were filled in correctly by hand.',
 cont+leafs,[('length computation','libs/egts/record_data.go, service_data_records.go, egts_pkg.go Encode and Length')],['length fields in encoded bytes'])
p('C09','Codec errors are never swallowed',
 'If any part of a packet or section cannot be decoded or encoded (a nested section fails, a flag that is not made of binary digits, a checksum or length is wrong), the whole operation returns an error; it never returns success with a partial or silently altered result.',
 ['inputs','fault_sequences'],'every failing step of every encoder and decoder',
 'Tests contain no failing encode or decode.',
 cont+leafs,[('error propagation','every Decode/Encode method')],['error result'])
p('C10','A value too large for its bit field never corrupts neighbouring bits',
 'When several values share one byte or word (speed with altitude sign and direction bit, the sensor number with the level-sensor flags), encoding a value that does not fit into its bits returns an error; it never changes the bits of another field.',
 ['inputs'],'all values of the packed fields',
 'Tests encode only in-range values.',
 [L+'egts_sr_pos_data.go',L+'egts_sr_liquid_level_sensor.go'],[('range checks','SrPosData.Encode, SrLiquidLevelSensor.Encode')],['encoded bytes, error'])
p('C11','Decoding always terminates and uses memory bounded by the input',
 'Decoding any byte string terminates: each loop iteration of a record or sub-record list consumes at least one byte of its input and nested sections are decoded from strictly smaller parts of it. No buffer is allocated larger than a fixed bound of 64 KiB per length field, and data handed to nested decoders is never larger than what was received.',
 ['inputs'],'all byte strings, including deeply nested confirmations and oversized length fields',
 'Tests contain no nested or oversized structure.',
 cont+leafs,[('loops over remaining bytes','RecordDataSet.Decode, ServiceDataSet.Decode'),('recursion through SrResponse/PtResponse','libs/egts/egts_sr_response.go')],['termination, allocation sizes'])
p('C12','Encoding is repeatable and has no side effects',
 'Encoding a section or asking for its length does not modify it and depends only on its contents, so encoding it again (or from another goroutine) yields the same bytes; for a packet only the derived header-length and data-length fields may be filled in. Decoded values never share memory with the input buffer.',
 ['histories','schedules'],'every section and packet, any number of encodings, buffers reused after decoding',
 'Tests encode each value once and keep the input buffers untouched.',
 cont+leafs,[('value receivers of loops, local buffers','Encode/Length/Decode methods')],['struct contents before and after, bytes of repeated encodings'])
p('C13','Each decoding failure is reported with its EGTS result code',
 'A failed packet decode returns, next to the error, the EGTS code of its cause: 131 for an unreadable or inconsistent header, 137 for a header checksum mismatch, 132 for an incomplete data part, 133 for an unsupported packet type, 129 for an undecodable data part or a missing checksum and 138 for a data checksum mismatch. Code 0 is returned exactly when there is no error.',
 ['inputs'],'every failure path of the packet decoder',
 'No test decodes a bad packet or looks at the code.',
 [L+'egts_pkg.go',L+'errors.go'],[('result codes','libs/egts/egts_pkg.go, libs/egts/errors.go')],['first result of Decode'])

p('C14','The EGTS+ section follows its published protobuf schema',
 'A section of type EGTS_SR_EGTSPLUS_DATA is the protocol buffer message storage_record of docs/egts_sr_egtsplus_data.proto: every field of every message is read from and written to the number, kind and multiplicity of the schema, fields the schema does not know are kept, and each accessor yields the value of its own field (or the zero value for an absent field or message, without panicking). Reasons have the numbers and names of the schema. Decoding starts from an empty message, uses all bytes of the section and fails exactly when they are no valid message; encoding yields the message and fails exactly when it is incomplete; the stated length is that of the encoding.',
 ['inputs'],'all messages and fields of the schema, all sections',
 'One section with five of the more than one hundred fields is tested; swapped numbers of two fields of the same kind, or an accessor of the wrong field, survive.',
 [L+'egts_sr_egtsplus_data.go'],[('message types, descriptor and accessors','libs/egts/egts_sr_egtsplus_data.go'),('Decode, Encode, Length of StorageRecord','libs/egts/egts_sr_egtsplus_data.go')],['decoded messages, encoded bytes, accessors'])

p('C20','The receiver cuts the byte stream exactly at packet boundaries',
 'For every packet on a connection the receiver consumes exactly header length + data length (+ 2 checksum bytes if there is a data part) bytes and hands exactly these bytes to the decoder, for all values of both length fields, so the next read starts at the next packet. A stream that does not start with protocol version 1, or whose header length is smaller than the fixed part of the header, closes the connection without an answer and without storing anything.',
 ['inputs','histories'],'all length fields, any sequence of packets on one connection, any fragmentation',
 'One packet is sent in one write by the only server test, and that test is not part of the stable suite.',
 [S],[('length computation and full reads','cli/receiver/server/server.go handleConn')],['bytes consumed from the connection'])
p('C21','A silent connection is closed after the configured time to live',
 'With a positive time to live configured, every wait for data on a connection (for a packet header as well as for the rest of a packet) is limited by a deadline of that duration set when the wait starts, and when it expires the connection is closed. A client that closes its side is released at once.',
 ['schedules','fault_sequences'],'every point at which a client can stop sending',
 'No test leaves a connection idle.',
 [S],[('read deadline','cli/receiver/server/server.go handleConn')],['connection closed after ttl'])
p('C22','Every accepted application packet is answered and every record confirmed',
 'For each successfully decoded application-data packet the receiver sends one response packet whose confirmed packet id is that packet\'s id and which contains, for each record of the packet in order, one confirmation carrying that record\'s own number. Only a packet that itself contains a confirmation and neither positions nor identification data is not answered.',
 ['inputs','histories'],'all packets, any number of records and sub-records',
 'The server test sends a single packet with a single record.',
 [S],[('response assembly','cli/receiver/server/server.go handleConn, createPtResponse')],['bytes written to the connection'])
p('C23','Telemetry is confirmed as processed only after it has been stored',
 'The positive answer to a packet with telemetry is written only after the storage has accepted its record without error. If storing fails, the answer carries a failure code both for the packet and for its records; it is never positive.',
 ['fault_sequences','crash_points'],'every storage failure, every crash between receiving and storing',
 'Test stores never fail and nothing observes the order of storing and answering.',
 [S],[('save before answer','cli/receiver/server/server.go handleConn')],['order of Save and Write, result code in response'])
p('C24','An undecodable packet is refused, not stored, and the session goes on',
 'When a framed packet cannot be decoded, the receiver answers with a response packet carrying that packet\'s id and the decoder\'s result code, stores nothing from it, and continues with the next packet on the same connection.',
 ['inputs','histories'],'every decoding failure at every position of a session',
 'No test sends an invalid packet.',
 [S],[('decode error branch','cli/receiver/server/server.go handleConn')],['bytes written, calls to storage'])
p('C25','Every position of a packet is exported with its own values',
 'For every position sub-record in an accepted packet the stored record contains, in order, one location with that sub-record\'s latitude and longitude (negative for south and west), speed and navigation time, the location count equals the number of locations, and the record is stored if and only if it has at least one position. The client id (object identifier) and the packet number (the packet id, or the number composed from the absolute counters 110 for the three low bytes and 111 for the high byte of that record) come from that same packet, as do the record\'s navigation time (that of its last position, in seconds) and the IMEI (that of the terminal identification, if there is one).',
 ['inputs'],'all packets with any mix and number of records and sub-records',
 'The server test only counts that one record was saved and never looks at its contents.',
 [S,ST+'packet.go'],[('sub-record switch','cli/receiver/server/server.go handleConn')],['record handed to storage'])
p('C26','Every sensor reading is exported under its own number and unit',
 'Each analogue reading present in a packet is exported once with the number of the sensor it belongs to and its value, absent readings are not exported, and each liquid-level reading is exported with its sensor number, module address, error flag, unit and the value in the quantity (millimetres or tenths of litres) its unit flag says.',
 ['inputs'],'all combinations of sensors and flags',
 'Exported sensor values are not examined by any test.',
 [S,ST+'packet.go'],[('sub-record switch','cli/receiver/server/server.go handleConn')],['record handed to storage'])
p('C27','Nothing leaks from one packet or connection into another',
 'The record stored for a packet and the answer sent for it depend only on that packet and on the server configuration: no position, sensor, identifier, confirmation or buffer content of an earlier packet or of another connection can appear in them.',
 ['histories','schedules'],'all sequences of packets on a connection and all interleavings of connections',
 'The server test sends one packet on one connection.',
 [S],[('per-packet variables','cli/receiver/server/server.go handleConn')],['record handed to storage, bytes written'])
p('C28','Concurrent connections share no unsynchronised mutable state',
 'Code that runs for a connection (decoding, exporting, storing, answering, logging) writes only to memory owned by that connection, or does so under a lock; server settings, the list of storages and the state of every storage plugin are written only before connections are served.',
 ['schedules'],'all interleavings of any number of connections',
 'No test opens two connections and none runs under the race detector.',
 [S,ST+'store.go',ST+'default.go']+cont+conns,[('locals per goroutine','handleConn, Connector.Save, Repository.Save')],['data races'])
p('C29','No traffic and no storage failure can terminate the gateway process',
 'No code reachable from the handling of a connection can panic, call exit or log fatally because of received data or of an error returned by the network, the codec or a storage. Such errors are returned or logged and affect at most the connection on which they happened.',
 ['inputs','fault_sequences'],'all received data and all failures of network and storages',
 'Tests contain neither malformed traffic nor failing storages.',
 [S,ST+'store.go',ST+'default.go']+conns+cont,[('error returns instead of panics','handleConn, Repository.Save, Connector.Save')],['process stays alive'])
p('C30','Connections and the listener are always released',
 'Every accepted connection is served in its own goroutine and closed exactly when its handler ends, on every path; a failed accept neither ends the server nor serves an invalid connection. After a listening server is stopped the accept loop ends instead of spinning, and the listener is closed.',
 ['schedules','fault_sequences'],'all exits of the handler, all accept errors, stop at any time',
 'The tests never check for closed connections and end the process without waiting for the server.',
 [S],[('deferred close','cli/receiver/server/server.go Run, handleConn, Stop')],['open connections after handler exit'])
p('C31','Packets built by the gateway are valid EGTS packets',
 'Every packet the receiver or the packet generator builds has protocol version 1, well-formed flag strings, a header length that matches its routing flag, a packet type that matches the kind of data it carries (responses in response packets, service records in application packets) and a sub-record type that matches each sub-record.',
 ['inputs','programs'],'all packets built for any input',
 'The server test compares one positive response; the authorisation result packet is never decoded.',
 [S,'cli/packet-gen/main.go'],[('packet literals','createPtResponse, createSrResultCode, packet-gen main')],['packets on the wire'])
p('C32','Identification is answered with a result code after the response',
 'A packet with terminal identification or authorisation data is answered, after its response packet, with one authorisation result packet for the same packet id carrying the success code; packets without such data get no result packet.',
 ['inputs','histories'],'all packets, all positions in a session',
 'No test sends identification data to the server.',
 [S],[('result code packet','cli/receiver/server/server.go handleConn, createSrResultCode')],['packets on the wire'])

p('C33','Every stored record tells who received it and when, under documented keys',
 'Each record handed to the storages carries the identifier of the gateway (EGTS_GATE0) and the time at which its packet was received: the clock is read after the packet has arrived completely and for each packet anew, and the time is written as an RFC 3339 text in UTC. The serialised record is the JSON of the whole record with exactly one value under each of its keys (server_id, IMEI, client_id, received_dt, packet_id, navigation_unix_time, an_sensors, liquid_sensors, loc_states, loc_states_count and those of their elements), present even when it is zero; if it cannot be serialised an error is returned.',
 ['histories','inputs'],'every packet of every connection, however long it stays open; all values of the record',
 'No stable test looks at a stored record; a time taken once per connection or a key dropped for a zero value is not visible in a test of one packet.',
 [S,ST+'packet.go'],[('receive time and server id','cli/receiver/server/server.go handleConn'),('JSON keys and ToBytes','cli/receiver/storage/packet.go')],['record given to the storages, its bytes'])
p('C34','One connection can hold only a bounded amount of memory',
 'What the gateway keeps for a connection does not grow with the number of packets received on it, and memory for data still to be received is taken only within the bound that the two length fields of the header allow (one packet, less than 128 KiB). Nothing is put off until the end of the connection for each packet.',
 ['histories','inputs'],'any number of packets on one connection, all values of the length fields',
 'Tests send a single packet; growth by a few bytes per packet shows only after days of an open connection.',
 [S],[('per-packet variables and buffers','cli/receiver/server/server.go handleConn')],['memory reachable from the connection handler'])

p('C40','Every record is offered to every configured storage',
 'Saving a record calls each configured storage exactly once, in the order in which they were added and with the same record, whatever the other storages return; if any of them fails, saving reports an error, and it reports success only if all of them succeeded.',
 ['fault_sequences','configurations'],'any number of storages and any subset failing',
 'No test uses more than one storage or a failing one.',
 [ST+'store.go'],[('fan-out loop','Repository.Save')],['calls to storages, error of Save'])
p('C41','A storage plugin reports success only if the backend took the whole record',
 'Each storage plugin (nats, nsq, postgresql, rabbitmq, redis and tarantool_queue) serialises the record it is given, hands exactly the serialised bytes to its backend in one publish, insert or put to the configured destination, and returns an error whenever the record is missing, cannot be serialised or the backend call returns an error; otherwise it returns success. The log fallback writes the serialised record or returns an error.',
 ['fault_sequences'],'every plugin and every failure of serialisation or backend',
 'No test runs a plugin, as they need live backends.',
 conns+[ST+'default.go'],[('Save methods','cli/receiver/storage/store/*/connector.go')],['backend call arguments, error of Save'])
p('C42','A storage plugin connects with exactly the configured parameters or fails',
 'Initialising a storage plugin uses each documented setting for its own purpose (address, credentials, database, queue, timeouts), fails with an error if the settings are missing or malformed or if the client library reports that connecting to the backend failed, and reports success only with a connection ready for saving.',
 ['configurations','fault_sequences'],'all configurations of every plugin',
 'No test initialises a plugin without a live backend.',
 conns,[('Init methods','cli/receiver/storage/store/*/connector.go')],['backend connection parameters, error of Init'])
p('C43','The configured storage names select exactly the matching plugins',
 'Each storage section of the configuration starts the plugin of that name with that section\'s settings and adds it to the set used for saving; an unknown name, a plugin that fails to start or an empty configuration is reported as an error, and a plugin that failed to start is never used for saving.',
 ['configurations'],'all storage configurations',
 'No test loads storages from a configuration.',
 [ST+'store.go'],[('LoadStorages','cli/receiver/storage/store.go')],['set of storages, error'])
p('C44','Received data never becomes part of a query or of a destination name',
 'Content of received packets reaches a storage only as message payload or bound statement parameter; it never becomes part of SQL text, topic, queue, exchange or routing names, which come from the configuration or constants only.',
 ['inputs'],'all received data',
 'Tests do not send hostile content and run no plugin.',
 conns,[('parameter binding','cli/receiver/storage/store/*/connector.go Save')],['arguments of backend calls'])
p('C45','Credentials are never logged or put into error messages',
 'Passwords of storage backends and authentication data received from terminals are not written to the log, to standard output or into error messages built by this program.',
 ['configurations','inputs'],'all configurations and received packets, all log levels',
 'No test examines log output.',
 conns+[S,L+'egts_sr_auth_info.go',L+'record_data.go','cli/receiver/main.go'],[('log and error calls','whole repository')],['log output'])

p('C50','Configuration settings mean what they say',
 'Each setting of the configuration file reaches its own purpose: host and port form the listen address, the time to live is taken in seconds, each of the log level names DEBUG, INFO, WARN and ERROR selects that level and anything else INFO, and the storage sections keep their names and keys. A file that cannot be read or parsed is reported as an error, and every key of the shipped sample configuration is one the program knows.',
 ['configurations'],'all configuration files',
 'One well-formed file is loaded; the accessors are not tested.',
 ['cli/receiver/config/config.go','configs/receiver.yaml'],[('yaml tags and accessors','cli/receiver/config/config.go')],['settings in effect'])
p('C51','The receiver starts with the configured settings or not at all',
 'The receiver refuses to start without a configuration file or with one that cannot be loaded. Otherwise it listens on the configured address with the configured time to live, log level and storages, and when the storages cannot be loaded it reports that and falls back to the log storage.',
 ['configurations','fault_sequences'],'all configurations',
 'The only test of this package needs a live database and does not run main.',
 ['cli/receiver/main.go'],[('wiring','cli/receiver/main.go')],['listen address, storages in use'])
p('C52','The packet generator sends exactly what was asked for',
 'The packet sent by the generator carries the packet id, client id, timestamp, latitude, longitude and liquid level given on the command line, goes to the given server, and the acknowledgement is awaited for the given timeout (5 seconds by default). Missing required options and unusable values are reported and nothing is sent.',
 ['inputs','configurations'],'all command lines',
 'The generator has no tests.',
 ['cli/packet-gen/main.go'],[('flag wiring','cli/packet-gen/main.go')],['bytes sent'])
p('C53','The packet generator succeeds only on a positive acknowledgement',
 'The generator exits with status 0 if and only if the data it received is a valid response packet for its own packet id with a positive packet result and a record section in which every record confirmation is positive. Every other outcome (no answer, invalid answer, other id, negative result, negative record status) ends with a message and a non-zero status, without crashing.',
 ['inputs','fault_sequences'],'all server answers',
 'The generator has no tests.',
 ['cli/packet-gen/main.go'],[('acknowledgement checks','cli/packet-gen/main.go')],['exit status'])
p('C90','Coordinates survive encoding and decoding within one unit of resolution',
 'For every latitude in [0, 90] and longitude in [0, 180], decoding the encoded value yields the original within one unit of the 32-bit resolution, and encoding a decoded value yields the same 32 bits.',
 ['inputs'],'all float64 coordinates and all 32-bit raw values',
 'Two coordinates are tested.',
 [L+'egts_sr_pos_data.go'],[('scaling','SrPosData.Encode/Decode')],['numeric values'])
p('C91','A confirmed record survives a crash of gateway or backend',
 'Once a packet has been answered positively its record is durable in every configured backend, whatever crashes afterwards.',
 ['crash_points'],'crashes of the gateway, the brokers and the databases',
 'No test involves a backend.',
 conns,[('backend acknowledgement','cli/receiver/storage/store/*/connector.go')],['records in backend'])
p('C92','Acknowledgements arrive within the protocol time limits under load',
 'Each packet is answered within the response timeout of the EGTS transport layer for any number of concurrent connections the host can carry.',
 ['schedules'],'all loads and schedules',
 'No load test exists.',
 [S],[('goroutine per connection','cli/receiver/server/server.go')],['response time'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
