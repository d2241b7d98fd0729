CLAIMS = {
 "C01": (None, "Standard library functions are trusted not to panic except for those listed in analyzer/spec_total.go; stack exhaustion is excluded by C11."),
 "C02": (None, "Layout lengths come from the table in analyzer/spec_sections.go."),
 "C03": (None, "The expected layout is the table in analyzer/spec_sections.go, written from the standard."),
 "C04": (None, "Layout tables as for C03; values within their ranges."),
 "C05": (None, "The table of type codes is subCodes in analyzer/spec_lists.go."),
 "C06": (None, "The checksum functions are opaque here (C07 decides what they compute)."),
 "C07": (None, "Bit-level comparison of the transfer function, by induction over the input."),
 "C08": (None, ""),
 "C09": (None, ""),
 "C10": (None, ""),
 "C11": (None, "Memory inside proto.Unmarshal is outside of the analysis."),
 "C12": (None, ""),
 "C13": (None, ""),
 "C14": ("comparison of the type-checked message types and constant descriptor with the schema; abstract interpretation of accessors and section methods", "The schema is a copy of the published one (analyzer/egtsplus.proto). The protocol buffer library is trusted to do what descriptor, struct tags and types tell it."),
 "C20": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. Relies on io.ReadFull and net.Conn having their documented meaning."),
 "C21": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. Expiry itself is the runtime's; decided is that a deadline is set before each wait and that its expiry leads to the end of the handler."),
 "C22": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. "),
 "C23": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. The outcome of the storage is what Repository.Save returns (C40 and C41 decide what that means)."),
 "C24": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. "),
 "C25": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. Besides the stated fields the IMEI and the navigation timestamp of the record are decided. Negation of a coordinate is exact."),
 "C26": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. Tenths of litres are compared as rational numbers."),
 "C27": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. Data dependence is decided on the values handed on, control dependence on their path conditions."),
 "C28": (None, "Ownership is decided on the abstract memory of the functions that run for a connection; types of the standard library and of the client libraries documented as safe for concurrent use are trusted to be (see analyzer/spec_safety.go for the list)."),
 "C29": (None, "Library functions are trusted not to panic or exit except for those listed in analyzer/spec_total.go; memory exhaustion is excluded."),
 "C30": (None, "Relies on net.Listener and net.Conn having their documented meaning."),
 "C31": (None, "Decided for every packet handed to the encoder by the receiver and by the packet generator."),
 "C32": (None, "Decided on the handler's joined abstract state; decoder, encoder, storage and connection are events with arbitrary outcomes. "),
 "C33": (None, "Decided on the handler's joined abstract state; encoding/json and time.Time.Format are trusted to have their documented meaning."),
 "C34": (None, "Memory inside libraries and garbage not yet collected are outside of the analysis; memory used while decoding one packet is C11. Growth of variables shared by connections is not part of the property."),
 "C40": (None, ""),
 "C41": (None, "Trusts the client libraries' documented meaning of their calls. That database/sql and the queue clients hand the bytes on unchanged is theirs."),
 "C42": (None, "The client libraries' meaning of their options is a table in analyzer/spec_storage.go."),
 "C43": (None, ""),
 "C44": (None, "Decided by explicit and text-building data flow; that a client library does not build a query from its payload argument is its own guarantee."),
 "C45": (None, "Secrets are the settings whose key names a password, whole sections of the configuration, received packet bodies and authentication data; error texts of libraries count as quoting their first text argument (an address), nothing else."),
 "C50": (None, "yaml.v2 is trusted to fill the fields by their tags."),
 "C51": (None, ""),
 "C52": (None, "Values are compared by path to the encoder; that the encoded bytes carry them is C03, C04 and C06. Coordinates that are no number (NaN) are outside of the number domain."),
 "C53": (None, "What the decoder accepts is decided by C01, C05, C06 and C13; that a record confirmation is a sub-record of code 0 is the table of C05."),
}
NA = {
 "C90": "Numeric round trip of float64 scaling: it quantifies over rounding of floating-point values, which the exact rational domain of this analysis cannot bound; C03 and C04 decide scale and width only.",
 "C91": "Durability is a property of external backends (brokers, databases) and of crash points outside this repository's source; no static argument about this code reaches it. C23 decides the ordering this code is responsible for.",
 "C92": "A statement about run-time latency under load; static analysis of this source cannot bound scheduling and network delays.",
}
