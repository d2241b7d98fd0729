package main

// The codec properties. Every rule is decided on the joined abstract state at
// the returns of the function under analysis, for all inputs at once.

func sectionsDecode(r *Report, part string) {
	for _, s := range sections() {
		checkSectionDecode(r, s, part)
	}
}

func sectionsEncode(r *Report, part string) {
	for _, s := range sections() {
		checkSectionEncode(r, s, part)
	}
}

func listsDecode(r *Report, part string) {
	checkListDecode(r, "RecordDataSet", "RecordData", part)
	checkListDecode(r, "ServiceDataSet", "ServiceDataRecord", part)
}

const how = "Each Decode/Encode method of libs/egts is interpreted over guarded linear values (paths merged at joins, loops replaced by a fixpoint summary); "

func init() {
	register(&Check{id: "C01", level: "other", min: 37,
		rule: how + "for every Decode method, each operation that can panic (index, slice, nil dereference, type assertion, division, negative make, explicit panic) becomes an obligation whose failing condition must be infeasible under the path condition for an arbitrary receiver and input; nested decoders are separate roots.",
		run: func(r *Report) {
			for _, t := range decoders(r.w, r.w.pkg("libs/egts")) {
				checkNoPanic(r, t)
			}
			checkSumsTotal(r, r.w.pkg("libs/egts"))
		}})
	register(&Check{id: "C02", level: "other", min: 13,
		rule: how + "the condition under which it returns a nil error must equal the condition that every mandatory and every flagged optional field of the layout lies inside the data (and that its values are admissible); for list decoders the same for each element against the remaining length.",
		run: func(r *Report) {
			sectionsDecode(r, "trunc")
			listsDecode(r, "trunc")
			checkPackageDecode(r, "trunc")
			checkPtResponseDecode(r, "trunc")
		}})
	register(&Check{id: "C03", level: "other", min: 80,
		rule: how + "at a successful return every field must hold, as a term over input bytes and bits, exactly the value the layout table assigns to it; fields whose presence flag is clear must be untouched.",
		run: func(r *Report) {
			sectionsDecode(r, "fields")
			listsDecode(r, "fields")
			checkPackageDecode(r, "fields")
			checkPtResponseDecode(r, "fields")
		}})
	register(&Check{id: "C04", level: "other", min: 4,
		rule: how + "for a receiver with arbitrary well-formed contents the byte sequence returned without an error must equal the layout table's sequence, byte for byte as terms over the receiver's fields.",
		run: func(r *Report) {
			sectionsEncode(r, "layout")
			listsEncode(r, "layout")
			checkPackageEncode(r, "layout")
			checkPtResponseEncode(r, "layout")
		}})
	register(&Check{id: "C05", level: "other", min: 17,
		rule: how + "for every code of the table the decoded section must have the type of that name (and unknown codes and packet types must be unable to reach a nil error); on encoding a section without a code, the code byte must be the constant of its dynamic type.",
		run: func(r *Report) {
			checkListDecode(r, "RecordDataSet", "RecordData", "codes")
			checkListEncode(r, "RecordDataSet", "RecordData", "codes")
			checkPackageDecode(r, "types")
		}})
	register(&Check{id: "C06", level: "other", min: 2,
		rule: how + "a nil error must imply that the received header checksum equals crc8 of exactly the header bytes before it and, with a data part, that the received data checksum equals crc16 of exactly the data part; Encode must append exactly these two values.",
		run: func(r *Report) {
			checkPackageDecode(r, "crc")
			checkPackageEncode(r, "crc")
		}})
	register(&Check{id: "C07", level: "other", min: 2,
		rule: "crc8 and crc16 are interpreted with an arbitrary input: by induction over the loop that walks the input, the register starts with the initial value, every iteration takes the next byte and its transfer function equals, bit for bit as Boolean functions of all register and byte bits, the standard step, and the register is returned after the last byte.",
		run: func(r *Report) {
			checkCRC(r, "crc8", 8, 0xFF, 0x31)
			checkCRC(r, "crc16", 16, 0xFFFF, 0x1021)
		}})
	register(&Check{id: "C08", level: "other", min: 4,
		rule: how + "the bytes of every length field in the encoded sequence must equal the length of the part that follows, and success must imply that this length fits; Length must return the length of the encoding.",
		run: func(r *Report) {
			sectionsEncode(r, "length")
			listsEncode(r, "length")
			checkPackageEncode(r, "length")
			checkPtResponseEncode(r, "length")
		}})
	register(&Check{id: "C09", level: "other", min: 4,
		rule: how + "the condition for a nil error must exclude every condition under which a nested call failed, a flag string is not binary or a nested section is missing.",
		run: func(r *Report) {
			sectionsEncode(r, "flags")
			listsEncode(r, "errors")
			listsDecode(r, "errors")
			checkPackageDecode(r, "errors")
			checkPtResponseDecode(r, "errors")
			checkPackageEncode(r, "flags")
			checkPtResponseEncode(r, "flags")
		}})
	register(&Check{id: "C10", level: "other", min: 2,
		rule: how + "with the values sharing a byte left unrestricted, a nil error must imply that each of them fits into its own bits.",
		run:  func(r *Report) { sectionsEncode(r, "range") }})
	register(&Check{id: "C11", level: "other", min: 14,
		rule: how + "for every Decode method each loop has a quantity that strictly shrinks from one iteration to the next and is bounded, every nested decoder gets strictly fewer bytes than its caller received, and every allocation is at most 64 KiB or the size of the input.",
		run: func(r *Report) {
			for _, t := range decoders(r.w, r.w.pkg("libs/egts")) {
				checkBounded(r, t)
			}
			checkSumsBounded(r, r.w.pkg("libs/egts"))
		}})
	register(&Check{id: "C12", level: "other", min: 4,
		rule: how + "the receiver's memory after Encode and Length must equal the memory before (a packet's derived length fields excepted), the result must not depend on anything but the receiver, and returned bytes must be freshly allocated.",
		run: func(r *Report) {
			sectionsEncode(r, "pure")
			listsEncode(r, "pure")
			checkPackageEncode(r, "pure")
			checkPtResponseEncode(r, "pure")
			for _, t := range decoders(r.w, r.w.pkg("libs/egts")) {
				checkDecodeAlias(r, t)
			}
			checkSumsAlias(r, r.w.pkg("libs/egts"))
		}})
	register(&Check{id: "C14", level: "other", min: 300,
		rule: how + "the generated message types (struct tags, Go types, the constant message descriptor, the accessors and the name tables) must agree field by field with the published schema of the section; the section's Decode, Encode and Length must hand all bytes and the whole receiver to the protocol buffer library and return its outcome unchanged.",
		run:  checkEgtsPlus})
	register(&Check{id: "C13", level: "other", min: 2,
		rule: how + "the returned code must be 0 exactly under the condition of a nil error and otherwise the code of the first failing cause, compared as guarded constants.",
		run:  func(r *Report) { checkPackageDecode(r, "codes") }})
}

func listsEncode(r *Report, part string) {
	checkListEncode(r, "RecordDataSet", "RecordData", part)
	checkListEncode(r, "ServiceDataSet", "ServiceDataRecord", part)
}
