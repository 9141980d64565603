#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","Primitive values have exactly the EOSIO wire format, both ways",
 "Every bool, fixed-width integer, float, 32-bit variable-length integer, string and byte array is encoded to exactly the canonical EOSIO bytes (little-endian two's complement, IEEE-754 bits, LEB128 / zig-zag LEB128, LEB128 length prefix), and decoding those bytes returns the same value and consumes exactly those bytes. A variable-length integer outside the 32-bit range is reported as an error when encoding and when decoding; it is never wrapped, truncated or a panic.",
 ["inputs"],"for every value of every primitive type and every string / byte-array length",
 "Tests encode one or two values per type (e.g. varuint 12345678 only); format boundaries (5-byte varints, 2- and 3-byte length prefixes, sign and NaN patterns) are never reached.",
 ["pkg/abi/encode.go","pkg/abi/decode.go"],
 [("Write* methods","pkg/abi/encode.go"),("Read* methods","pkg/abi/decode.go"),("type switches in Encode / Decode","pkg/abi/encode.go, pkg/abi/decode.go")],
 observe=["bytes given to the io.Writer","value and error returned by Decode","bytes left in the reader"])

p("C02","Composite Go values round-trip with the EOSIO layout for every shape",
 "For every type built from slices, arrays, maps, pointers, nested or recursive structs, optional, extension and variant fields over the supported leaf types, encoding writes exactly the concatenation in declaration order that EOSIO prescribes (element counts, presence flags, variant indices), and decoding that output returns an equal value and consumes all of it. A missing trailing extension decodes as the zero value, a variant decodes to exactly one set alternative, and a nil pointer where a value is required or an out-of-range variant index is reported as an error.",
 ["inputs","programs"],"for every composite type shape and every value of it (explored: all shapes to nesting depth 2-3 over the leaf set, with all small values)",
 "The shape grammar is infinite and combinations interact (pointer in slice, optional map, variant of structs, reuse of fast paths); tests fix about a dozen shapes with one value each and never encode a variant, map or extension.",
 ["pkg/abi/encode.go","pkg/abi/decode.go"],
 [("reflection encoder","pkg/abi/encode.go EncodeValue"),("reflection decoder","pkg/abi/decode.go DecodeValue"),("variant decoding","pkg/abi/decode.go DecodeVariant"),("pointer chasing","pkg/abi/decode.go indirect")],
 observe=["bytes given to the io.Writer","decoded value","bytes left in the reader"])

p("C03","Chain types have the EOSIO wire format on every codec path",
 "Every blockchain type of the library (names, assets, symbols, checksums, keys, signatures, times, 128-bit numbers, blobs, permission levels, actions, transactions, ABI definitions) encodes to exactly its EOSIO bytes and decodes back to an equal value consuming exactly them. The bytes and the decoded value are the same whether the value is passed by value or by pointer, alone or inside a container, and whether the specialised codec, a custom codec or the plain reflection codec handles it.",
 ["inputs","configurations"],"for every value of every chain type, in every container position and with every codec construction",
 "Tests hold one sample per type through one path; equality of the fast path and the reflection path, variable-length WebAuthn keys, multi-byte counts and list-bearing values are not compared.",
 ["pkg/chain/encoding.go","pkg/chain/action.go","pkg/chain/transaction.go","pkg/chain/public_key.go","pkg/chain/signature.go","pkg/chain/numbers.go","pkg/chain/asset.go","pkg/chain/symbol.go","pkg/chain/name.go","pkg/chain/time.go","pkg/chain/checksum.go","pkg/chain/blob.go","pkg/chain/bytes.go","pkg/chain/abi.go"],
 [("MarshalABI / UnmarshalABI methods","pkg/chain/*.go"),("fast-path dispatch","pkg/chain/encoding.go chainEncoder, chainDecoder")],
 observe=["bytes written","decoded value","bytes left in the reader"])

p("C04","ABI-driven encoding and decoding follow the ABI and are inverse",
 "For every well-formed ABI (structs with inheritance, empty structs, variants, type aliases, arrays, optionals, trailing extensions and their nestings) and every value conforming to a type of it, dynamic encoding writes exactly the bytes the ABI prescribes and dynamic decoding of those bytes returns that value, with absent optionals and absent trailing extensions as nil. Whatever dynamic decoding returns can be encoded again to the same bytes (an absent extension of optional type may come back as a present empty optional); a value whose Go type does not match the ABI type, a missing required field, an unknown type, action or variant is an error. Decoding or encoding an action selects the type registered for that action name.",
 ["programs","inputs"],"for every ABI definition and every value (explored: every builtin type under every suffix combination, all field pairs of representative types, inheritance to depth 3, alias chains, variants incl. 2-byte indices)",
 "Tests decode and encode one struct of one token ABI; the type-expression language is unbounded.",
 ["pkg/chain/abi.go","pkg/chain/action.go"],
 [("type resolver","pkg/chain/abi.go resolver.resolve"),("field flattening over bases","pkg/chain/abi.go allFields"),("dynamic encoder / decoder","pkg/chain/abi.go encodeType, encodeInner, decodeType, decodeInner")],
 observe=["value or error from Abi.Decode / DecodeAction / Action.Decode","bytes and error from Abi.Encode / EncodeAction"])

p("C05","Truncated input is always rejected",
 "If input ends anywhere strictly inside the encoding of a value, decoding reports an error, for static and for ABI-driven decoding alike; it never returns a shortened, defaulted or partially filled value as success. The only accepted early end is exactly before a trailing extension.",
 ["inputs","crash_points"],"for every value of every type and every cut position inside its encoding",
 "No test decodes a truncated input at all.",
 ["pkg/abi/decode.go","pkg/chain/abi.go","pkg/chain/action.go","pkg/chain/transaction.go","pkg/chain/public_key.go","pkg/chain/signature.go"],
 [("io.ReadFull in the byte reader","pkg/abi/decode.go ReadBytes"),("error propagation in UnmarshalABI methods","pkg/chain/*.go"),("extension end-of-input handling","pkg/abi/decode.go DecodeValue, pkg/chain/abi.go decodeType")],
 observe=["error returned by Decode"])

p("C06","Hostile bytes or ABIs never crash decoding or exhaust memory",
 "For every byte string and every decodable type, decoding terminates with either an error or exactly the value the EOSIO format assigns to a prefix of the bytes; it never panics, never crashes the process (stack exhaustion included), and never allocates memory out of proportion to the input because of a length or nesting the input merely claims (element types that occupy no bytes, and ABI types that fan out into them, excepted). A malformed ABI (empty, unknown or one-letter type names, circular aliases, self-containing structs, circular bases) leads to an error, never a panic or crash, when encoding or decoding.",
 ["inputs","programs"],"for every byte string fed to every type, and every ABI definition",
 "Tests only decode well-formed samples; length prefixes close to 2^32 and 2^63, unknown tags and cyclic ABIs are outside any test.",
 ["pkg/abi/decode.go","pkg/chain/abi.go","pkg/chain/transaction.go","pkg/chain/action.go","pkg/chain/public_key.go","pkg/chain/signature.go"],
 [("bounded reads","pkg/abi/decode.go ReadBytes, ReadVaruint"),("slice growth","pkg/abi/decode.go DecodeValue; pkg/chain/transaction.go; pkg/chain/abi.go decodeType"),("recursion limits","pkg/abi/decode.go, pkg/chain/abi.go")],
 observe=["panic / crash of the calling process","error","bytes allocated"])

p("C07","I/O failures surface as errors and read chunking never matters",
 "If any write to the underlying writer fails, once or permanently and at any position, encoding returns an error and everything written before the failure is a prefix of the correct encoding. If a read fails before the value is complete, once or permanently and at any position, decoding returns an error. The way a reader splits the bytes (one at a time, any split point, empty reads, data together with EOF) never changes the decoded value.",
 ["fault_sequences","inputs"],"for every value, every fault position and kind on the writer or reader, and every chunking of the input",
 "Tests use in-memory buffers that never fail and return everything at once.",
 ["pkg/abi/encode.go","pkg/abi/decode.go","pkg/chain/action.go","pkg/chain/transaction.go","pkg/chain/abi.go"],
 [("error returns of Write* / Read*","pkg/abi/encode.go, pkg/abi/decode.go"),("error propagation in Marshal/Unmarshal methods","pkg/chain/*.go")],
 observe=["error returned","bytes accepted by the writer","decoded value"])

p("C08","Account names map one-to-one between text and 64-bit value",
 "Every 64-bit value has a unique canonical text of at most 13 characters from [a-z1-5.] without trailing dots, and parsing that text returns the value. Parsing any text gives the value EOSIO assigns to it: five bits per character for the first twelve, four for the thirteenth, characters outside the alphabet counting as dots and characters beyond the thirteenth ignored. The wire, text and JSON forms agree.",
 ["inputs"],"for every 64-bit value and every string",
 "Tests hold five names; the fuzz target only checks that output matches a regexp, not that it denotes the value.",
 ["pkg/chain/name.go"],[("nameToString / stringToName","pkg/chain/name.go"),("charToSymbol","pkg/chain/name.go")],
 observe=["Name.String, NewName, MarshalText/UnmarshalText"])

p("C09","Asset amounts and symbols convert to and from text exactly",
 "For every 64-bit amount and every symbol of 0 to 18 decimals and one to seven capital letters, the text form is the exact decimal with that many fractional digits, sign and code, parsing it returns the same amount and symbol, and the float value is the nearest double. An asset text is accepted only as optional minus, digits with at most one point and at most 18 fractional digits, one space and a symbol code, with an amount that fits 64 bits; a symbol text only as a precision from 0 to 18, comma and at most seven capital letters. Formatting never panics for any amount or symbol value, including ones read from the chain with out-of-range precision.",
 ["inputs"],"for every (amount, symbol) and every text",
 "Tests and fuzz seeds cover six assets; negative amounts below one unit, extreme amounts, zero padding and invalid precisions are not reached.",
 ["pkg/chain/asset.go","pkg/chain/symbol.go"],
 [("asset formatter and parser","pkg/chain/asset.go String, NewAssetFromString"),("symbol packing and validation","pkg/chain/symbol.go rawSymbolValue, Name, Code, Decimals")],
 observe=["String, FloatValue, NewAssetFromString, NewSymbolFromString, text/JSON forms"])

p("C10","Large integers keep their exact value in text, JSON and big-int form",
 "Every unsigned and signed 128-bit integer converts to its exact decimal text and big integer and back without change, text that is not a decimal integer or is out of range is rejected, and building one from an out-of-range or (unsigned) negative big integer panics instead of giving a wrong value. 64-bit integers and block numbers are written to JSON as a plain number up to 2^32-1 and as a quoted string above, and both forms parse back exactly while out-of-range or malformed JSON is rejected.",
 ["inputs"],"for every 128-bit and 64-bit value and every text",
 "Tests hold about a dozen values; the extremes of the signed range (-2^127, 2^127..2^128-1) are not tested.",
 ["pkg/chain/numbers.go"],[("NewInt128 / NewUint128 and BigInt","pkg/chain/numbers.go"),("readUintJSON / writeUintJSON","pkg/chain/numbers.go")],
 observe=["String, BigInt, Bytes, New*FromString, MarshalJSON/UnmarshalJSON"])

p("C11","Timestamps convert to and from text exactly, or are rejected",
 "Every representable second timestamp, every half-second block timestamp and every millisecond-precision time point (years 0 to 9999) formats to its UTC ISO text and parses back to the same value, with or without a trailing Z and whatever the local time zone; finer time points format rounded down to the millisecond. A text that is no such date and time (an offset, another order or separator of fields, anything behind one Z) or that denotes a time outside the range of the target type is rejected, never wrapped; converting to and from Go times is exact, block timestamps rounding to the nearest half second.",
 ["inputs","configurations"],"for every 32-bit / 64-bit timestamp value, every date text and every local time zone",
 "Tests cover five instants; leap days, range ends, negative times and the half-second grid are not swept.",
 ["pkg/chain/time.go"],[("formatting and parsing","pkg/chain/time.go"),("epoch arithmetic","pkg/chain/time.go NewBlockTimestamp, Time")],
 observe=["String, Time, New*FromString, text forms"])

p("C12","Key and signature texts round-trip and corruption is always rejected",
 "Every public key and signature of each curve type formats to its PUB_/SIG_ text and parses back to the same type and data, and K1 keys in compressed form (first byte 2 or 3) also through the legacy text, which is accepted under any prefix and whose checksum is the unsuffixed RIPEMD-160 that EOSIO uses. A text whose characters, checksum, curve tag, separator or payload length is wrong - in particular any single changed, dropped, added or swapped character behind the legacy prefix - is rejected with an error and never panics, and accepted texts always yield a payload that is well formed on the wire.",
 ["inputs"],"for every key / signature payload, every curve type and every text, incl. all single-character edits of valid texts",
 "Tests parse four valid strings; no invalid text and no legacy text is ever parsed.",
 ["pkg/chain/public_key.go","pkg/chain/signature.go","pkg/chain/key_type.go","pkg/base58/base58check.go"],
 [("text parsers","NewPublicKeyFromString, NewSignatureString"),("checksummed base58","pkg/base58/base58check.go")],
 observe=["String, LegacyString, New*FromString, text/JSON forms"])

p("C13","Base58 is a bijection between byte strings and base-58 texts",
 "Encoding any byte string gives its base-58 positional representation with one leading '1' per leading zero byte, and decoding it returns the bytes; decoding any text over the alphabet and encoding it returns the text. Any text with a byte outside the alphabet (ASCII, Latin-1 or multi-byte UTF-8) decodes to the empty result without panic, and the checksummed forms return exactly the payload or an error according to the checksum.",
 ["inputs"],"for every byte string and every text",
 "A handful of vectors; 10-digit chunk boundaries, interior zero chunks and non-ASCII text are not covered.",
 ["pkg/base58/base58.go","pkg/base58/base58check.go","pkg/base58/alphabet.go"],
 [("chunked radix conversion","pkg/base58/base58.go"),("checksum append / verify","pkg/base58/base58check.go")],
 observe=["Encode, Decode, CheckEncode*, CheckDecode*"])

p("C14","Digests depend only on the bytes hashed, however they are fed",
 "For every message the RIPEMD-160 hash equals the standard's value for every way of splitting the message into writes, with intermediate sums and resets changing nothing, and independent hash objects never influence each other. The 160, 256 and 512 bit checksums are the RIPEMD-160, SHA-256 and SHA-512 of the message, and an action's digest is the SHA-256 of its serialised form.",
 ["histories","inputs"],"for every message and every sequence of write / sum / reset calls",
 "Tests use nine vectors, each written in at most two pieces; block-boundary splits and call histories are unbounded.",
 ["pkg/ripemd160/ripemd160.go","pkg/ripemd160/ripemd160block.go","pkg/chain/checksum.go","pkg/chain/action.go"],
 [("buffering state machine","pkg/ripemd160/ripemd160.go Write, Sum, Reset"),("compression function","pkg/ripemd160/ripemd160block.go"),("checksum helpers","pkg/chain/checksum.go; Action.Digest")],
 state=[("buffer, fill index, total count","partial block and message length carried between writes","pkg/ripemd160/ripemd160.go digest")],
 observe=["hash.Hash methods, Checksum*Digest, Action.Digest"])

p("C15","Hex and base64 texts are decoded exactly or rejected without effect",
 "Byte strings, blobs, checksums and 128-bit floats format to their hex or base64 text and parse back to the same bytes, hex in either letter case, blobs also when their base64 padding is missing. (Line breaks, unused trailing bits and incomplete padding in base64 may be tolerated.) A text with a foreign character, an odd or wrong length is rejected with an error; it never panics and is never accepted as a shorter or longer value. For every text-parsable type of the library a rejected text leaves the destination unchanged.",
 ["inputs"],"for every byte string, every text and every prior destination value",
 "Tests parse one valid text per type; no malformed hex or base64 is ever parsed.",
 ["pkg/chain/bytes.go","pkg/chain/blob.go","pkg/chain/checksum.go","pkg/chain/numbers.go","pkg/chain/symbol.go","pkg/chain/asset.go","pkg/chain/time.go","pkg/chain/public_key.go","pkg/chain/signature.go"],
 [("UnmarshalText methods","pkg/chain/*.go")],
 observe=["UnmarshalText / UnmarshalJSON result, error and destination"])

p("C16","Decoding into a used destination equals decoding into a fresh one",
 "Decoding a value into a destination that already holds the result of any earlier successful or failed decoding gives a result equal to decoding into a zero destination; nothing of the old contents is kept, appended to or mixed in. One decoder reading several values in a row returns exactly the values encoded in a row, whatever their types.",
 ["histories"],"for every sequence of decodes (successful or failed) into the same destination and every sequence of values on one stream",
 "TestReuse covers one struct and three decodes; lists inside chain types, failed decodes and variants in a history are not covered.",
 ["pkg/abi/decode.go","pkg/chain/action.go","pkg/chain/transaction.go"],
 [("destination resets","pkg/abi/decode.go DecodeValue, DecodeVariant; pkg/chain UnmarshalABI methods")],
 state=[("destination value","contents left by earlier decodes","caller")],
 observe=["decoded value after each step"])

p("C17","Caller data is never modified and results are never shared",
 "No encoding, decoding, parsing, formatting or hashing call modifies the bytes, texts or values it is given, including memory just beyond the end of a passed slice. Changing an input buffer afterwards never changes a result obtained from it, and changing or extending one result never changes another result or the outcome of a later call. A copy kept of a decoded key, signature, action, transaction or byte string stays as it was when its variable is decoded into again. Constructors that wrap a given slice as it is (of a key, signature or action), accessors into an ABI definition and the append contract of hash sums are excepted.",
 ["histories","inputs"],"for every operation, every argument with spare capacity, and every pair of operations whose results are kept and then overwritten",
 "Tests look at each result immediately and never keep, overwrite or compare buffers across calls.",
 ["pkg/abi/decode.go","pkg/abi/encode.go","pkg/chain/blob.go","pkg/chain/bytes.go","pkg/chain/checksum.go","pkg/base58/base58check.go","pkg/ripemd160/ripemd160.go"],
 [("fresh buffers per read","pkg/abi/decode.go ReadBytes"),("copies before append","pkg/base58/base58check.go, pkg/chain/*.go")],
 observe=["argument memory before/after","earlier results after later calls"])

p("C18","Calls are independent: no history or interleaving changes a result",
 "Every call's result is a function of its own arguments only: whatever calls were made before, and however calls on separate encoders, decoders, hash objects or a shared ABI are interleaved between goroutines, each returns what it would return alone. Concurrent use of the library on separate objects is free of data races.",
 ["schedules","histories"],"for every history of calls and every interleaving of concurrent encodes / decodes at their I/O points",
 "Tests are single-threaded and call each function once; package-level caches or scratch buffers would pass them.",
 ["pkg/abi/encode.go","pkg/abi/decode.go","pkg/chain/abi.go","pkg/chain/encoding.go","pkg/base58/base58.go","pkg/ripemd160/ripemd160.go"],
 [("call-local scratch buffers and per-call type resolver","pkg/abi/*.go, pkg/chain/abi.go"),("read-only package tables","pkg/base58, pkg/ripemd160, pkg/chain/name.go")],
 observe=["results and bytes written under every explored schedule","race detector"])

p("C19","Serialisation is deterministic",
 "Encoding equal values gives identical bytes on every call, every writer and every codec construction, whatever the insertion, deletion or iteration order of maps inside the value. Consequently equal actions have equal digests and re-encoding what was decoded from the output of the encoder reproduces it byte for byte.",
 ["histories","inputs"],"for every value and every construction history of the maps in it",
 "Go randomises map iteration; no test encodes a map with more than one entry twice.",
 ["pkg/abi/encode.go","pkg/chain/abi.go"],
 [("map key ordering","pkg/abi/encode.go EncodeValue")],
 observe=["bytes given to the writer on repeated encodings"])

p("C20","JSON round-trips every chain value in every position",
 "Marshalling any chain value or structure, within the text range of its type, to JSON and unmarshalling it returns an equal value, and each scalar type appears as its EOSIO text or number form whether it is passed by value or pointer, as a struct field, slice element, map value or inside the generic maps returned by ABI-driven decoding. Transactions, actions and ABI definitions use the EOSIO field names.",
 ["inputs","configurations"],"for every chain value and every position it can take in a JSON document",
 "Tests marshal one value per type at top level; value-versus-pointer positions and generic maps are not covered.",
 ["pkg/chain/*.go"],[("MarshalText/MarshalJSON receivers and json tags","pkg/chain/*.go")],
 observe=["encoding/json output and input"])

p("C21","Custom codec hooks take precedence and are otherwise transparent",
 "A custom encoding or decoding function sees every value reached through generic containers (for a variant field its alternative, for a byte slice the whole) before the library handles it: values it claims are handled by it alone, values it declines are handled exactly as without it, and an error it returns aborts the operation and is reported. Types with their own marshalling methods, with value or pointer receivers, are encoded and decoded through those methods wherever they occur and their errors are reported.",
 ["configurations","inputs","fault_sequences"],"for every subset of types claimed by the hook, every container nesting and every call at which the hook fails",
 "The custom constructors are not used by any test.",
 ["pkg/chain/encoding.go","pkg/abi/encode.go","pkg/abi/decode.go"],
 [("hook chaining","pkg/chain/encoding.go NewCustomEncoder, NewCustomDecoder"),("hook call sites","pkg/abi Encode / Decode")],
 observe=["bytes, values and errors with hooks installed"])

p("C22","Generated codecs compile and equal the reflection codec",
 "For every struct (with names that do not clash with identifiers of the emitted code) whose fields are builtin scalars, strings or types with their own codec - plain, in slices, in fixed arrays or behind optional or required pointers - or plain byte slices, the code generator emits Go code that compiles and whose encoding and decoding agree with the reflection codec on every value, used destinations, truncated or changed input, failing writers and nil pointers included, and memory is not allocated for lengths that the input merely claims.",
 ["programs","inputs"],"for every struct in the supported field grammar and every value of it",
 "The generator has no test at all.",
 ["pkg/codegen/codegen.go"],[("templates and field classification","pkg/codegen/codegen.go")],
 observe=["generated source compiled and run"])

p("C23","What the codec cannot represent is refused, never skipped or mangled",
 "A Go value that reaches something without an EOSIO encoding (a channel, function, complex number, uintptr or nil interface, a variant that is not a struct of pointers) is refused with an error by the encoder wherever it is nested, and so is such a type, or a destination passed by value, by the decoder, which leaves a refused destination as it was. Types that a codec may or may not support (named scalar types, interfaces that hold a value) are refused or round-trip. The ABI-driven encoder refuses Go values of no ABI type for every ABI type. None of this panics.",
 ["inputs","programs"],"for every unsupported type in every position of every type shape",
 "The tests only use supported types; the error branches of both codecs are not reached.",
 ["pkg/abi/encode.go","pkg/abi/decode.go","pkg/chain/abi.go"],
 [("fallthrough cases","pkg/abi EncodeValue, DecodeValue, EncodeVariant, DecodeVariant"),("type switches","pkg/chain/abi.go encodeInner")],
 observe=["errors of Encode and Decode"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
