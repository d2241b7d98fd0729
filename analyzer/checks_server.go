package main

// The properties of the connection handler. It is interpreted once with
// symbolic settings and an arbitrary connection; the decoder, the encoder and
// the storage appear as events with unknown outcomes.

const hhow = "The connection handler (found as the function started for every accepted connection) is interpreted over guarded values with loop fixpoints for an arbitrary connection, arbitrary packets and arbitrary outcomes of reading, decoding, storing and writing; "

func init() {
	register(&Check{id: "C20", level: "other", min: 4,
		rule: hhow + "the byte string given to the decoder must be exactly the bytes consumed from the connection in this round, their number must be HL + FDL (+2), and every return or further round with a header that does not start with protocol version 1 or has a header length below the fixed part must be free of writes and saves.",
		run:  checkFraming})
	register(&Check{id: "C21", level: "other", min: 2,
		rule: hhow + "with a positive time to live every read of the connection must be preceded by a read deadline of now + ttl set after the previous read, and a failed read or deadline must end the handler.",
		run:  checkDeadlines})
	register(&Check{id: "C22", level: "other", min: 3,
		rule: hhow + "for a decoded application packet exactly one response packet must be encoded and written unless the packet only confirms; its confirmed id and its list of confirmations must equal the packet id and a fold over the packet's records with their own numbers.",
		run:  checkResponses})
	register(&Check{id: "C23", level: "other", min: 2,
		rule: hhow + "whenever the packet has telemetry, the answer must be written after the save, and under a failed save neither the packet result nor any record status may be 0.",
		run:  checkStoredFirst})
	register(&Check{id: "C24", level: "other", min: 2,
		rule: hhow + "under a failed decode exactly one response with the packet id and the decoder's code must be written, no save may happen and every path must lead to the next round.",
		run:  checkRefused})
	register(&Check{id: "C25", level: "other", min: 7,
		rule: hhow + "the fields of the saved record must be the stated folds over the packet's records and sub-records: one location per position with its own terms, the count, the client, the number composed of the counters; the save must happen exactly if a position was seen.",
		run:  checkPositions})
	register(&Check{id: "C26", level: "other", min: 5,
		rule: hhow + "the two sensor lists of the saved record must be the stated folds: what each kind of sub-record appends is compared term by term under each presence flag and unit flag.",
		run:  checkSensors})
	register(&Check{id: "C27", level: "other", min: 3,
		rule: hhow + "no value handed to the decoder, encoder, storage or connection may depend on a value carried over from an earlier round of the connection loop or on a mutable package variable.",
		run:  checkNoLeak})
	register(&Check{id: "C32", level: "other", min: 2,
		rule: hhow + "exactly the packets with identification or authorisation data must be followed, after the response, by one packet with a result-code section carrying code 0 and the packet id of the response.",
		run:  checkResultCode})
	register(&Check{id: "C33", level: "other", min: 40,
		rule: hhow + "the saved record must hold the gateway's identifier and the text of a clock reading taken in the same round after the last read; the struct tags of the record types must give each field its documented key without options, and ToBytes must return what encoding/json makes of the whole record.",
		run:  checkOrigin})
	register(&Check{id: "C34", level: "other", min: 1,
		rule: hhow + "no variable that lives from packet to packet may refer to its own earlier value with more elements than before, no call may be deferred in each round, and every length that memory is taken for must have a constant bound under its path condition or count the elements of an existing list.",
		run:  checkFootprint})
	register(&Check{id: "C28", level: "other", min: 12,
		rule: "Every function that runs for a connection (the handler, saving, every storage plugin, every encoder and decoder) is interpreted over guarded values; every write, read-modify call or handed-on pointer that reaches memory existing before the connection was accepted (server, storages, plugins, package variables) must be under a lock of shared memory or a use of a type documented as safe for concurrent use; variables handed to a handler must not be written afterwards on any path; the list of storages must not be reachable for writing after the server was started.",
		run:  checkSharing})
	register(&Check{id: "C29", level: "other", min: 24,
		rule: "In the same functions every operation that can panic (index, slice, nil dereference, nil interface or function call, type assertion, division, negative make, explicit panic, map write) is an obligation whose failing condition must be infeasible, and no call of exit or fatal logging may be reachable.",
		run:  checkSurvives})
	register(&Check{id: "C30", level: "other", min: 5,
		rule: "Server.Run, Server.Stop and the connection handler are interpreted for arbitrary outcomes of listening and accepting; the guards of starting a handler, leaving the loop, repeating it and of the Close calls are compared with the outcome of Accept.",
		run:  checkReleased})
	register(&Check{id: "C31", level: "other", min: 12,
		rule: hhow + "every structure handed to Package.Encode is examined in the abstract memory of that call: version, flag texts, packet type against the dynamic type of the data, sub-record codes against the dynamic type of the sub-records; the same for the packet generator.",
		run:  func(r *Report) { checkBuilt(r); checkGenPacket(r) }})
	register(&Check{id: "C40", level: "other", min: 3,
		rule: "Repository.Save is interpreted over guarded values for an arbitrary list of storages with arbitrary outcomes; the loop over the list must start at the first storage, move on by one and end at the last only, every iteration must call the storage at hand exactly once with the record given, and the result must be an error exactly when the variable that tracks failures (by induction over the loop) says so. AddStore must append.",
		run:  checkFanOut})
	register(&Check{id: "C41", level: "other", min: 12,
		rule: "Init and then Save of every plugin are interpreted over guarded values for arbitrary settings, an arbitrary record and arbitrary outcomes of the serialisation and the client library; the call that hands over the record must happen exactly once, on the connection made by Init, with the bytes of ToBytes and the configured destination, and Save must return nil exactly if serialisation and call succeeded.",
		run:  checkSave})
	register(&Check{id: "C42", level: "other", min: 12,
		rule: "Init of every plugin is interpreted over guarded values for arbitrary settings; the arguments of the library call that connects are compared with the settings they stand for (the PostgreSQL connection string is read back as the library does), and every error on the way must make Init fail.",
		run:  checkInit})
	register(&Check{id: "C43", level: "other", min: 8,
		rule: "LoadStorages is interpreted over guarded values for an arbitrary configuration with Init of the plugins as calls with arbitrary outcome; in the loop over the sections the plugin started, its settings, what is appended to the list and what is returned are compared per section name.",
		run:  checkSelection})
	register(&Check{id: "C50", level: "other", min: 11,
		rule: "The structure the configuration is parsed into is examined key by key, the getters of the settings and config.New are interpreted over guarded values for arbitrary settings, an arbitrary file and arbitrary outcomes of reading and parsing; their results are compared with the settings. The keys of the sample configuration are compared with those read by the structure and by each plugin's Init.",
		run:  checkSettings})
	register(&Check{id: "C51", level: "other", min: 6,
		rule: "The receiver's main is interpreted over guarded values for an arbitrary command line and arbitrary outcomes of reading the configuration and loading the storages; the guard of Server.Run, the arguments of server.New, LoadStorages and SetLevel and the list of storages at the start are compared with the settings.",
		run:  checkStart})
	register(&Check{id: "C44", level: "other", min: 5,
		rule: "Save of every plugin is interpreted over guarded values after Init; in every call of a client library all arguments but the payload and the values bound to a statement are searched, through structures, pointers, interfaces and composed texts, for texts made from the record (its serialised bytes or parts of it), and so is what the plugin keeps.",
		run:  checkDestinations})
	register(&Check{id: "C45", level: "other", min: 20,
		rule: "Every call that logs, prints, exits with a message or makes an error text, in the plugins, LoadStorages, config.New, main, the connection handler and the decoders of packets, records and authentication data, is searched (as fmt prints its arguments, through composed texts and library text functions) for passwords of the configuration, received bytes and authentication data.",
		run:  checkSecrets})
	register(&Check{id: "C52", level: "other", min: 12,
		rule: "The packet generator's main is interpreted over guarded values for an arbitrary command line and arbitrary outcomes of resolving, connecting, writing and reading; the structure handed to Package.Encode is compared field by field with the options, the guards of writing and of a successful end with the conditions under which the options are unusable, the connection with -server and the read deadline with -timeout",
		run:  checkSent})
	register(&Check{id: "C53", level: "other", min: 8,
		rule: "The packet generator's main is interpreted over guarded values with Package.Decode as a call with an arbitrary result; the guard of a successful end must imply each condition of a positive acknowledgement, the loops over the confirmations must visit all of them and remember a negative one (induction over the loop variables), and no failing end may be reachable with a positive acknowledgement; every operation that can panic is an obligation",
		run:  checkAcknowledged})
}
