prop("P01", "Length fields are exact and inverse to each other",
     "For every length, the encoded length field is one octet for lengths below 128, otherwise 0x80 plus the number of big-endian octets that follow (1, 2 or 4 of them, and as few as needed beyond 2^32). Reading a length field whose octets are truncated is refused with an error; reading a length field that is followed by any data gives back exactly that length and exactly the data that followed it.",
     [CDT, PDU, D + "cosem_pdu.py"],
     [("encode_length", CDT), ("get_length_and_pdu", CDT), ("decide_len / encode_length", PDU), ("Buffer.put_len / get_length", PDU)],
     "all non-negative lengths (no upper bound on the field width) and all octets following the field",
     "tests sample a handful of lengths below 1000; rounding at powers of 256 and multi-octet fields are never reached")

prop("P02", "Fixed-width integers encode exactly, and out-of-range values are refused",
     "An integer data value accepts precisely the integers of its width and signedness (and of its declared minimum and maximum), whether given as a number, as text or as its encoding, and refuses all others with an error. Its encoding is the type tag followed by the big-endian value, and decoding that encoding gives the same value back.",
     [CDT, IMPL + "integers.py", IMPL + "long_unsigneds.py", IMPL + "double_long_usingneds.py"],
     [("Digital", CDT), ("Integer .. Long64Unsigned", CDT)],
     "all integers for each of the eight classes, all octet strings given as encodings or raw contents, all decimal texts",
     "tests use a few small values; boundaries of each width, sign extension and 64-bit texts are not sampled")

prop("P03", "Octet, visible and UTF-8 strings carry their octets unchanged",
     "A string value built from an encoding keeps exactly the announced octets, and its own encoding is the tag, the minimal length field and those octets, for contents of every length. An encoding with another type's tag or with fewer octets than announced, and contents that differ from the fixed size of a size-restricted type, are refused with an error. A string built from a text holds the text's characters in its encoding (ASCII text as its character codes), and the text of a UTF-8 string is the text it was built from.",
     [CDT, IMPL + "octet_string.py"],
     [("_String", CDT), ("OctetString / VisibleString / Utf8String", CDT)],
     "all octet contents of unbounded length, all encodings, every fixed-size type",
     "tests use short literals; contents of 128 octets and more, truncated encodings and size limits are not covered")

prop("P04", "Bit strings keep every bit and only the addressed bit changes",
     "A bit string of any supported length built from a text of 0 and 1, from a list of bits or from an encoding reports exactly those bits in order, and its encoding (tag, bit count, bits packed most significant first, zero padding) decodes to the same bits. Setting or inverting one bit changes that bit and no other, and rotating a non-empty bit string left or right moves every bit by the stated distance without losing any.",
     [CDT, IMPL + "bitstrings.py"],
     [("BitString", CDT), ("Conformance", IMPL + "bitstrings.py")],
     "all bit values for lengths covering every padding; all indices; all rotations",
     "tests look at one or two bit patterns")

prop("P05", "Floating-point values are carried in IEEE 754 format",
     "A float32 or float64 data value built from a number encodes to the tag followed by the IEEE 754 representation of that number, and an encoding decodes to the number it represents, zeros, subnormals, infinities and NaN included; numbers beyond the range of the format are refused with an error. Clearing and copying keep the value well formed.",
     [CDT], [("Float / Float32 / Float64", CDT)],
     "all 2^32 / 2^64 bit patterns",
     "tests use single values such as 1.5; zero, subnormal and special values are not sampled")

prop("P06", "Calendar dates and times keep every field, including unspecified ones",
     "For dates, times and date-times given as their octets, each field reader returns the field's value, or nothing when it is unspecified, and refuses the special codes it has no value for; each field setter changes that field only, or refuses a value that leads outside the calendar and changes nothing. The text form of a valid value parses back to the same octets (for date-times with a deviation of at most 720 minutes or none; the text has no clock status). Octets that cannot be a calendar value, or of the wrong width, are refused with an error.",
     [CDT], [("__DateTime / __Date / __Time", CDT), ("Date / Time / DateTime", CDT)],
     "all 5-, 4- and 12-octet contents and all settable values",
     "tests use a few dates; wildcards, day 31/leap years and field boundaries are not sampled")

prop("P07", "Date-times convert to and from host date-times without shifting the instant",
     "Converting a host date, time or date-time to the device format and back gives the same calendar fields (times to a hundredth of a second) and the same offset from UTC, for whole-minute offsets of either sign up to 720 minutes; without an offset the deviation is unspecified. The deviation is read as a signed number of minutes; an unspecified one is reported as no time zone and decoded as UTC, never as another offset, and one beyond 720 minutes is refused as a time zone.",
     [CDT], [("DateTime.from_datetime / decode / to_datetime / time_zone", CDT)],
     "all host date-times and all whole-minute offsets within +-12 h",
     "tests use no offset or one positive offset")

prop("P08", "Arrays and structures decode to the values they encode, element by element",
     "Encoding an array or a structure and decoding the result yields the same elements in the same order and consumes exactly the octets of the encoding, leaving what follows untouched. An array only ever holds elements of its declared type (or, without a declared type, of one common type), and a structure always holds exactly its declared elements, each of its declared type; other inputs, wrong tags and truncated encodings are refused with an error.",
     [CDT], [("Array", CDT), ("Structure", CDT), ("get_instance_and_pdu_from_value", CDT)],
     "all element values; element counts as stated by the contracts; all following octets",
     "tests decode single literal encodings")

prop("P09", "Every data value can be cleared, copied and re-set without corrupting it",
     "Clearing a data value gives a value of the same type that encodes to the type's default (an enumerated value stays a member, a bit string keeps its size with all bits zero, an array becomes empty, the elements of a structure are cleared). Copying gives an equal value of the same type that later changes to the original do not affect. Setting a value, also an array or a structure as a whole, either takes exactly the new value or raises an error and leaves the old value as it was, a refusing callback included; it never changes the type of the value.",
     [CDT], [("SimpleDataType.set / copy / clear", CDT)],
     "all starting values and all new values of each simple type and of sample arrays and structures",
     "tests never clear most types and never check the state after a refused assignment", over=("inputs", "histories"))

prop("P10", "An HDLC frame that is built parses back to itself",
     "For all valid addresses, control codes, information fields and the segmentation bit that fit the 11-bit frame length (longer ones are refused with an error), the octets of a built frame parse to a frame with the same format, addresses, control code and information field. The announced frame length equals the number of octets between the flags, and both check sequences are correct, the information part being checked only when present.",
     [FR], [("Frame.__init__ / content / try_from", FR), ("Format / Address / Control / FCS", FR)],
     "all addresses, controls, information contents up to the largest frame",
     "tests parse a few recorded frames")

prop("P11", "Corrupted or incomplete HDLC data is never taken for a frame",
     "Parsing a receive buffer yields a frame only if a well-formed frame with correct check sequences is completely present; any octets before its opening flag are dropped and what follows it, from its closing flag on, stays in the buffer; of a malformed frame only the opening flag is dropped. On incomplete data nothing is consumed from the frame's start, and on arbitrary octets the parser terminates without any error other than its documented ones.",
     [FR], [("Frame.try_from", FR), ("Frame.__get_header / FCS", FR)],
     "all octet strings in the receive buffer (as bounded in the contract), all corruption positions",
     "tests feed complete correct frames", over=("inputs", "fault_sequences"))

prop("P12", "HDLC addresses keep their upper and lower parts",
     "An HDLC address built from an upper and an optional lower part within the allowed ranges encodes in one, two or four octets with only the last octet's lowest bit set, and decoding those octets, whatever follows them, gives the same parts; a lower part of zero counts as none unless the longer form is asked for. Parts outside the ranges, another length than automatic, one, two or four octets, and octets that are not a complete address are refused with an error. Addresses are equal exactly if their octets are, and a received frame counts as the addressed station's answer exactly if it comes from that address and goes to the own one.",
     [FR], [("Address", FR)],
     "all parts and all octet strings", "tests use single small addresses")

prop("P13", "HDLC control fields are classified and sequenced per the standard",
     "Each of the 256 control octets is classified consistently: exactly one frame kind, with its send and receive sequence numbers as encoded. Advancing the send number of an information frame, or the receive number, is modulo eight and changes no other sequence number nor the frame kind (advancing the receive number also sets the poll bit).",
     [FR], [("Control", FR)], "all 256 control octets", "tests name a few codes")

prop("P14", "The frame check sequence is CRC-16/X.25",
     "For octet strings of every length, the computed check sequence equals the bitwise CRC-16/X.25 of the octets in transmission order, and appending it makes verification succeed. Any change of a single octet makes the check sequence differ.",
     [FR], [("CRC table and FCS", FR)], "all octet strings of unbounded length",
     "tests use a few recorded frames")

prop("P15", "HDLC parameter negotiation never yields unusable or swapped parameters",
     "The negotiation information field carries each of the four parameters (information length and window size, for transmit and receive) in its own place and parses back to the same values. After a response is taken over, what the peer may transmit limits what we receive and what it can receive limits what we transmit; a response that is malformed or announces values outside the permitted ranges is refused with an error and leaves all parameters as they were.",
     [NEG], [("Negotiation.SNRM / set_from_UA", NEG)],
     "all admissible parameter values and all responses", "tests use default values only", over=("inputs", "histories"))

prop("P16", "The LLC header is added and removed exactly",
     "Building a link-layer message adds the header for its direction in front of the information and nothing else; parsing removes exactly that header, and any other header, or too little data, is refused with an error.",
     [LLC], [("LLC", LLC)], "all information contents of unbounded length, all headers", "one literal is tested")

prop("P17", "PDU buffers never read or write outside their bounds and return what was written",
     "Whatever is written to a PDU buffer at a position is read back unchanged from that position, other octets stay as they were, and the position advances by exactly the number of octets processed. A read or write that does not fit is refused with an error and leaves contents and position unchanged.",
     [PDU, BB], [("Buffer / ByteBuffer", PDU), ("ByteBuffer", BB)],
     "all buffer sizes, positions and values", "tests use one buffer and a few values", over=("inputs", "histories"))

prop("P18", "Application versions are totally ordered and the best matching one is selected",
     "Comparing versions orders them totally by major, minor and patch number (a missing patch number before every number), equality additionally compares the additional text, and equal versions have equal hashes. The text form of a version parses back to the same version, text after the numbers being kept as additional text. From a set of available versions the selection returns the nearest version not newer than the requested one within the same major and minor line, whatever the order of the set.",
     [VER], [("AppVersion", VER)], "all version numbers and all sets of versions (sizes as bounded)",
     "tests compare a few literals")

prop("P19", "Service primitives' basic types keep their fields",
     "Unsigned and signed protocol integers, protocol octet strings, sequences, choices and the invoke identifier with its priority and service class encode to the octets the protocol defines and decode to the same values. Values outside a type's range, wrong sizes and unknown alternatives are refused with an error.",
     [UT, PDU], [("INTEGER / OCTET_STRING / SEQUENCE / CHOICE / InvokeIdAndPriority", UT), ("Unsigned* / Integer* / OctetString* / Sequence / Choice / Data", PDU)],
     "all values of each type", "tests use single literals")

prop("P20", "Logical names and network addresses convert between text and octets exactly",
     "Every six-octet logical name (of data values and of protocol primitives) and every four-octet network address has the text of its octets in decimal, separated by points, and that text parses back to the same octets; numbers and groups in a text appear in the octets in their order. Groups left out at the end are 0, the sixth group of a logical name 255. Groups outside 0 to 255, groups that are no numbers, groups too many, and another number of octets are refused with an error. Logical names are equal, ordered and hashed by their octets.",
     [CST, UT, IMPL + "double_long_usingneds.py"],
     [("LogicalName", CST), ("CosemObjectInstanceId", UT), ("IPAddress", IMPL + "double_long_usingneds.py")],
     "all octet values; texts of groups that are any integers, and texts with a malformed group", "a few literal names are tested")

prop("P21", "Enumerated values and flags admit exactly the defined members",
     "An enumerated data value accepts precisely the members its type defines, whether given as a number, as text or as its encoding, and refuses every other number, octet or text with an error; its encoding is the tag and the member's octet and decodes to the same member. The name of a member parses back to that member (or one that shares the name), the speed of a communication speed belongs to its member and is accepted in its place. A value of bit flags is accepted exactly if only defined bits are set.",
     [CDT, IMPL + "enums.py"], [("Enum", CDT), ("FlagMixin", CDT), ("CommSpeed ..", IMPL + "enums.py")],
     "all integers, all octet strings and all 256 octets for every enumerated class", "tests name two members")

prop("P22", "Segmented information is reassembled in order and completely",
     "Joining a queue of received frames gives the information of its first information frame, followed by that of every frame that continues it, up to the frame whose segmentation bit is clear, octet for octet; the frames after that stay in the queue. A frame continues another exactly if it is an information frame whose send number is the next one modulo eight, whatever the poll bits, receive numbers and lengths; frames before the first information frame and frames that do not continue are left out. A queue without an information frame or without the last segment is refused with an error.",
     [D + "hdlc/frame.py"],
     [("Frame.join_info / is_next_send / is_segmentation / info", D + "hdlc/frame.py"), ("Control.next_send_sequence / is_info", D + "hdlc/frame.py")],
     "all queues of frames with any control octets, segmentation bits and information",
     "no test joins frames; wrap-around of the send number, lost or repeated segments and frames of other kinds in between are not sampled")

prop("P23", "Association names keep the arcs of their object identifier in both forms",
     "An association name given as an object identifier (octet string tag, length, octets) has exactly the arcs the octets stand for, the first two sharing an octet and the others in base 128, and encodes to the same octets; given as a structure or as a sequence of arcs it has those arcs and encodes to that structure. Both forms of a name have the same object identifier octets. Copying and setting keep the form of a name. Identifiers with another number of arcs, an incomplete last arc, an arc too large for its element or fewer octets than announced, and other tags are refused with an error.",
     [CDT],
     [("AXDR", CDT), ("Structure.get_a_xdr", CDT)],
     "all arcs that fit their elements, for names of five and seven arcs with elements of every width; all octet strings of at most 10 octets as identifiers",
     "tests use the one default name; arcs of more than two octets, other lengths and malformed identifiers are not sampled")

prop("P24", "A choice of data types gives the alternative its tag or selector stands for",
     "An attribute's choice of data types (all types, register values, device identifiers, access selectors, dates) given an encoding yields a value of exactly the alternative whose tag the encoding has, decoded as that alternative decodes it, also a date, time or date-time in an octet string by its length; given a tag it yields that alternative's default, given nothing the first alternative. A structure whose first element selects the type of the second holds a value of the selected type and encodes to the octets it was decoded from. Tags, lengths and selectors of no alternative, and values of another type than selected, are refused with an error.",
     [UT, D + "types/choices.py"],
     [("CHOICE", UT), ("CommonDataTypeChoiceBase / StructureMixin and the choices", D + "types/choices.py")],
     "all choices of the module and all their alternatives but generic structures and compact arrays, all contents; all tags, lengths and selectors",
     "tests decode a few registers; most alternatives, date choices by length and selectors are not sampled")
