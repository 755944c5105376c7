"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
IO_W = 'neocore/IO/BinaryWriter.py'
IO_R = 'neocore/IO/BinaryReader.py'
F8 = 'neocore/Fixed8.py'
BI = 'neocore/BigInteger.py'
UB = 'neocore/UIntBase.py'
U1 = 'neocore/UInt160.py'
U2 = 'neocore/UInt256.py'
HP = 'neocore/Cryptography/Helper.py'
CR = 'neocore/Cryptography/Crypto.py'
EC = 'neocore/Cryptography/ECCurve.py'
MT = 'neocore/Cryptography/MerkleTree.py'
KP = 'neocore/KeyPair.py'
UT = 'neocore/Utils.py'
CLI = 'neocore/bin/cli.py'

# id, title, statement, quantifier text, why tests can't, files, [(mechanism, where)], over
P = [
('C01', 'Variable-length integers are canonical and round-trip',
 'For every integer from 0 to 2^64-1 the variable-length integer writer emits exactly the canonical NEO encoding (one byte below 0xfd, otherwise 0xfd, 0xfe or 0xff followed by the smallest sufficient 2, 4 or 8 byte little-endian form), and the reader, given a sufficient limit, restores that integer and consumes exactly those bytes. Negative integers, integers of 2^64 or more and non-integers are rejected. The reader returns an encoded value exactly when it does not exceed the limit it was given, and rejects it otherwise.',
 'every integer in range, every reader limit, fields in sequence',
 'The tests try about a dozen values; the boundaries between the four forms and the limit comparison hold over 2^64 values.',
 [IO_W, IO_R], [('WriteVarInt', IO_W), ('ReadVarInt', IO_R)]),
('C02', 'Fixed-width integers and Fixed8 amounts round-trip in both byte orders',
 'Writing an 8, 16, 32 or 64 bit signed or unsigned integer emits exactly its two\'s complement bytes in the requested byte order (little-endian by default), and reading it back returns the same number and consumes exactly that width, for fields in any sequence. A Fixed8 amount is written as its signed 64 bit little-endian count and restored as an equal Fixed8. Numbers outside the width are rejected without writing anything, and a truncated field is rejected.',
 'every value of every width, both byte orders, every truncation',
 'Tests write a few small positive values and read a few constants; sign, width and byte-order mistakes show on other values.',
 [IO_W, IO_R, F8], [('pack and the WriteXIntN methods', IO_W), ('unpack and the ReadXIntN methods', IO_R)]),
('C03', 'Single bytes, booleans, characters and floating point values round-trip',
 'A byte given as an integer 0..255, a bytes value, a text or a one-byte character is written as exactly those bytes (text as UTF-8) and restored by the matching reader; integers outside 0..255 are rejected. A boolean is one byte, 1 or 0, and every non-zero byte reads as true. Every 64 bit float, and every 32 bit float, is written as its IEEE-754 bytes in the requested byte order and restored bit for bit (NaN as NaN).',
 'every byte, every bool, every float bit pattern, both byte orders',
 'Tests use one or two floats and bytes.',
 [IO_W, IO_R], [('WriteByte WriteBool WriteChar WriteFloat WriteDouble', IO_W), ('ReadByte ReadBool ReadChar ReadFloat ReadDouble', IO_R)]),
('C04', 'Length-prefixed payloads are carried unchanged',
 'A variable-length byte string or text is written as the canonical variable-length integer of its byte length (in the chosen text encoding; the length in the requested byte order) followed by exactly its bytes, whatever they are, including bytes that look like hexadecimal text; raw byte writes with unhex off emit exactly their argument. Reading it back returns exactly the payload and leaves the stream right behind it, so that payloads in sequence are restored in order. The one-byte-length string reader returns exactly the announced number of following bytes.',
 'every payload content, lengths across the prefix boundaries 0xfc/0xfd and 0xffff/0x10000, any sequence',
 'Tests write one or two short constants; payloads of particular content or size are not reached.',
 [IO_W, IO_R], [('WriteVarBytes WriteVarString WriteBytes', IO_W), ('ReadVarBytes ReadVarString ReadString ReadBytes', IO_R)]),
('C05', 'Fixed-width strings are padded, bounded and restored',
 'Writing a text of at most n UTF-8 bytes as a fixed string of width n emits exactly those UTF-8 bytes followed by zero bytes up to n in total; a text of more than n UTF-8 bytes is rejected and nothing is written. Reading a fixed string of width n consumes exactly n bytes and returns them without the trailing zero bytes.',
 'every text and width within bounds',
 'Tests write a single string; content that looks like hex, non-ASCII text and exact-fit widths are not reached.',
 [IO_W, IO_R], [('WriteFixedString', IO_W), ('ReadFixedString', IO_R)]),
('C06', 'Hash lists and arrays of serializable objects are carried in order',
 'A list of 32-byte hashes given as hexadecimal is written as its variable-length count followed by each hash\'s bytes in reverse order, and reading it back gives the same hexadecimal texts in the same order, for every hash content. The 2000-entry list writer emits the reversed bytes of every entry, and the reader returns 2000 entries, each the byte-reversed hexadecimal of its 64 digits. An array of serializable objects is written as its count followed by each object in order (an absent array as a zero byte), and reading it gives as many equal objects in that order.',
 'every hash content, every list length within bounds',
 'Tests use one tiny list; byte content, order and length interplay hold over all lists.',
 [IO_W, IO_R], [('WriteHashes Write2000256List WriteSerializableArray', IO_W), ('ReadHashes Read2000256List ReadSerializableArray', IO_R)]),
('C07', 'UInt160 and UInt256 values survive the wire',
 'A UInt160 or UInt256 is written as exactly its 20 or 32 data bytes in storage order, and reading it back (through the typed reader or through its own deserialization) gives an equal value of the same type and consumes exactly that many bytes. Input with too few bytes is rejected instead of giving a value, and so is writing a value of any other type. A UInt can only be constructed from bytes of exactly its width.',
 'every 20 and 32 byte value, every truncation, every wrong construction length within bounds',
 'Tests serialize a few constants; the property must hold for all 2^160 and 2^256 contents.',
 [UB, U1, U2, IO_W, IO_R], [('Serialize Deserialize', UB), ('WriteUInt160 WriteUInt256', IO_W), ('ReadUInt160 ReadUInt256', IO_R)]),
('C08', 'UInt160 and UInt256 text forms and parsing are inverse',
 'The text of a UInt is the lower-case hexadecimal of its bytes in reverse order (with 0x in front in the prefixed form, as ASCII bytes in the bytes form, in storage order in the second form), and parsing that text, with or without the 0x prefix and in either letter case, gives back an equal value of the same type. Any text that is not exactly 40 (respectively 64) hexadecimal digits behind an optional 0x is rejected.',
 'every value, every text within the length bound',
 'Tests parse two or three constants.',
 [UB, U1, U2], [('ToString ToString2 To0xString ToBytes', UB), ('ParseString', U1), ('ParseString', U2)]),
('C09', 'UInt equality, hashing and ordering are consistent',
 'Two UInts are equal exactly when they have the same bytes, equal UInts have equal hashes, and the hash is the little-endian number of the first four bytes, also after deserializing new content. Comparison is the numeric comparison of the little-endian values, with the six operators and CompareTo agreeing, a total order; comparing different widths or foreign types is rejected, and equality with them is false. A UInt does not change when the buffer it was built from is changed afterwards.',
 'every pair and triple of values; every later change of the source buffer',
 'Tests compare a few constants; each byte position matters for ordering.',
 [UB], [('CompareTo __eq__ __hash__ __lt__ __gt__ __le__ __ge__', UB), ('GetHashCode', UB)]),
('C10', 'Reading untrusted streams never over-reads, and limits are enforced',
 'For every input stream, a read of n bytes returns exactly the next min(n, remaining) bytes, and the safe read returns exactly the next n bytes or raises an error. Variable-length reads with a limit raise an error when the announced length or count exceeds the limit, whatever the encoding form, and otherwise consume exactly the announced bytes. Fixed-width numbers, booleans, characters, floats and the length-prefixed string readers raise an error when the stream ends too early instead of giving a value.',
 'every stream content up to the length bound, every requested length and limit',
 'Tests use a few crafted streams; parsing must be right for every hostile input.',
 [IO_R], [('ReadBytes SafeReadBytes unpack ReadVarInt ReadVarBytes ReadVarString', IO_R)]),
('C11', 'Big integer byte conversion is exact and minimal',
 'Converting a big integer to bytes and back as a signed number gives the same value for every integer; converting a non-negative one with the unsigned form and back as unsigned does too. The bytes are little-endian two\'s complement (unsigned form: plain binary), zero is a single zero byte, and a positive number uses no more bytes than needed, a negative one at most one more. Reading bytes as a big integer gives the little-endian number of those bytes, two\'s complement when signed is requested.',
 'every integer and every byte string within the size bound',
 'Tests convert a handful of numbers; sign-bit boundaries occur at every byte length.',
 [BI], [('ToByteArray FromBytes', BI)]),
('C12', 'Big integer arithmetic is integer arithmetic',
 'Addition, subtraction, multiplication, floor division (by either division operator), modulus, negation, absolute value and shifts of big integers give big integers equal to the exact integer result, and leave their operands unchanged; dividing by zero is rejected. Sign is -1, 0 or 1 according to the value, and Equals agrees with integer equality.',
 'every pair of integers within the size bound',
 'Tests use a few small numbers; rounding of negative quotients and large magnitudes are not settled.',
 [BI], [('operator methods', BI), ('Sign Equals', BI)]),
('C13', 'Fixed8 arithmetic and comparison are exact on the underlying counts',
 'For all Fixed8 amounts, addition, subtraction, negation, multiplication, floor division, modulus and (modular) powers with a non-negative exponent give the exact integer result on the underlying counts, and true division gives the quotient truncated toward zero, as new Fixed8 values that leave their operands unchanged (also for the in-place operators); dividing by zero is rejected. The six comparisons agree with the integer comparison of the counts. The named constants (one, satoshi, negative satoshi, zero) have counts 10^8, 1, -1 and 0.',
 'every pair of 64 bit counts',
 'Tests use tiny counts; errors of float rounding or sign appear only for large or negative amounts.',
 [F8], [('arithmetic and comparison operators', F8)]),
('C14', 'Fixed8 ceiling, floor and integer conversion are exact',
 'For every Fixed8 amount, Floor is the largest whole amount not above it, Ceil is the smallest whole amount not below it (both as Fixed8), and ToInt is the whole number obtained by dropping the fractional part (toward zero). None of them changes the amount.',
 'every 64 bit count, negative ones included',
 'Tests use four amounts; float rounding is wrong only beyond 2^53 counts or at exact boundaries.',
 [F8], [('Ceil Floor ToInt', F8)]),
('C15', 'Fixed8 decimal text and parsing are inverse and exact',
 'For every Fixed8 amount whose count is below 10^15 in magnitude, its text (and the JSON text, which only drops a trailing .0) denotes exactly the amount and parsing it gives the same amount back. Parsing a decimal text or number with up to 8 decimals gives exactly the denoted amount, further decimals are dropped; converting whole numbers is exact. Texts that are not numbers, non-finite numbers, and negative amounts when a positive one is required, give no amount.',
 'every count below 10^15; every decimal text within the length bound; every whole number',
 'Tests parse a few constants; the loss of a satoshi depends on the digits.',
 [F8], [('ToString ToNeoJsonString TryParse FromDecimal', F8)]),
('C16', 'Addresses and script hashes convert back and forth',
 'For every 20 byte script hash, the address made from it is the Base58 text of version byte 23, the hash and the first four bytes of the double SHA-256 of those 21 bytes; it is accepted as a valid public address, and the command line tool\'s conversion of that address gives exactly the script hash back. The library and the command line tool give the same address for the same script hash, whether its text is big endian with 0x or little endian without; malformed script hash texts are reported as conversion errors. Run as a command, the tool prints the script hash of an address in both byte orders (big endian with 0x) and the address of a script hash, and ends with status 1 for malformed texts.',
 'every script hash, every malformed text within the length bound',
 'Tests convert one address.',
 [HP, CR, CLI, UT], [('scripthash_to_address', HP), ('ToAddress', CR), ('address_to_scripthash scripthash_to_address', CLI)]),
('C17', 'Only well-formed addresses are accepted',
 'A text is accepted as a public address exactly when it has 34 characters, decodes as Base58Check with a correct checksum to 21 bytes, and has version byte 23; anything else gives false rather than an exception. The command line tool converts an address only when it decodes to 25 bytes with version byte 23 and a correct checksum, and reports a conversion error for everything else. In particular, any change of the decoded bytes that does not also produce a matching checksum is rejected.',
 'every decoded payload, checksum and version byte; texts with characters outside the Base58 alphabet; lengths within the bound',
 'Tests try one address with a bad checksum and two of wrong length.',
 [UT, CLI], [('isValidPublicAddress', UT), ('address_to_scripthash', CLI)]),
('C19', 'WIF export and import are inverse and malformed WIFs are rejected',
 'For every valid private key, the exported WIF is the Base58 text of 0x80, the key, 0x01 and the first four bytes of their double SHA-256, and importing it gives exactly the key. Importing accepts a text only when it has 52 characters and decodes to 38 bytes with prefix 0x80, compression byte 0x01 and a correct checksum; everything else is rejected with a ValueError.',
 'every private key, every decoded content of every prefix, length and checksum within bounds',
 'Tests import a few constants.',
 [KP], [('Export PrivateKeyFromWIF', KP)]),
('C20', 'NEP-2 encryption and decryption are inverse and malformed keys are rejected',
 'For every valid private key and every passphrase of at least two characters, encrypting gives the Base58Check text of the NEP-2 header, the four-byte address hash and the AES encrypted key, and decrypting that text with the same passphrase (up to Unicode NFC form) gives exactly the key. Decrypting rejects every text that is not Base58Check of 39 bytes with the NEP-2 header, and every result whose address hash does not match the embedded one. Passphrases shorter than two characters are rejected.',
 'every key, every passphrase within the length bound, every ciphertext content; scrypt, AES and the curve under their contracts',
 'Tests decrypt three constants, each taking seconds of scrypt.',
 [KP], [('ExportNEP2 PrivateKeyFromNEP2', KP)]),
('C21', 'A key pair\'s public key, script hash and address belong together',
 'For every valid private key, the key pair\'s public key is the generator multiplied by it on the NIST P-256 curve, its public key hash is the hash of the compressed encoding, and its address is that of the script 0x21, compressed key, 0xac. Key material with the public key stored in front (96 or 104 bytes) uses that public key and the last 32 bytes as private key; other lengths, a private key of zero, and plain 32-byte keys of at least the group order are rejected. A created wallet\'s WIF and address belong to the same key.',
 'every private key and every stored public key; point multiplication and hashes under their contracts',
 'Tests check a few constant keys.',
 [KP, CR, HP, CLI], [('KeyPair construction, GetAddress', KP), ('ToScriptHash', CR), ('create_wallet', CLI)]),
('C22', 'The Merkle root commits to all leaves',
 'For every non-empty list of hashes, the root is obtained by repeatedly pairing neighbours (an odd last one with itself) and hashing the concatenation of each pair\'s bytes with double SHA-256, a single hash being its own root; the tree object and the direct computation agree, and the inputs are left unchanged. The depth is one plus the number of pairing rounds, and the tree\'s hash array contains exactly the distinct leaf hashes. An empty list is rejected.',
 'every list length within the bound, every hash content',
 'Tests compute the roots of a few constant lists.',
 [MT], [('__Build ComputeRoot ToHashArray', MT)]),
('C23', 'Trimming a Merkle tree keeps exactly the flagged parts',
 'After trimming with one flag byte per leaf (missing ones count as zero), a pair of sibling leaves remains in the tree exactly when at least one of the two is flagged, an inner node keeps its children exactly when some leaf below it is flagged, and every node that remains keeps its hash, so the root is unchanged. Trimming with all leaves flagged changes nothing.',
 'every flag vector and every number of leaves within the bound',
 'Tests trim three constant trees, mostly fully.',
 [MT], [('Trim _TrimNode', MT)]),
('C24', 'Finite field values obey modular arithmetic',
 'For every prime field and all its elements, canonical or given as any integer, addition, subtraction, multiplication, negation, powers and division of field values, also with plain integers on either side, give the canonical representative of the exact modular result, and multiplication by the inverse gives one. A value given as hexadecimal text is the big-endian number it denotes. Square roots of squares square back to the value and have the requested parity (unless zero). Equality is congruence; the operations of a field give no field value for operands of two different fields.',
 'all elements of several small primes of every supported residue class modulo 8, and products, sums and small powers for the 256-bit prime',
 'There are no direct tests of the field at all beyond the fixed curve.',
 [EC], [('FiniteField and FiniteField.Value', EC)]),
('C25', 'Curve point arithmetic is the group law',
 'On every elliptic curve over a prime field that does not pass through the origin (which stands for the neutral point), the sum of two curve points is a curve point and is the group-law sum, for distinct, equal, opposite and neutral operands; addition is commutative and associative, the neutral point is neutral, and a point plus its negative is neutral. Multiplication by a non-negative scalar is repeated addition, by a negative scalar the negation of it (a scalar given as hexadecimal text is the big-endian number), and subtraction and division by a scalar are the corresponding inverses.',
 'all curve coefficients and all points over several small primes; all scalars within the bound',
 'No existing test exercises the group law.',
 [EC], [('EllipticCurve.add sub mul neg div', EC)]),
('C26', 'Public key encoding and decoding are inverse and reject malformed input',
 'Every curve point encodes as 02 or 03 (by the parity of y) plus the 32 big-endian bytes of x, or uncompressed as 04 plus both coordinates, and decoding gives back the same point, from hexadecimal, from raw bytes (also with a private key stored behind it) and from a stream, also through serialization. Decoding rejects wrong lengths, unknown prefixes, coordinates that are not below the field prime, compressed encodings whose x belongs to no point, and, when checking is requested, points off the curve. A decoded compressed key always lies on the curve and has the announced parity.',
 'every x and y and prefix byte, every length within the bound; the square root power under its contract',
 'Tests decode a few constant keys.',
 [EC], [('encode_point Serialize decode_from_hex decode_from_reader decompress_from_curve FromBytes_Secp256r1', EC)]),
('C27', 'Public keys have a consistent total order',
 'Points of a curve are ordered by their x coordinate, then by their y coordinate: exactly one of smaller, equal and greater holds for any two points, the non-strict comparisons agree with that, and the order is transitive.',
 'all pairs and triples of coordinates',
 'Tests compare one or two constant points; points sharing x are not covered.',
 [EC], [('ECPoint comparison operators', EC)]),
('C28', 'Signing and verifying hash the right message with the right key on P-256',
 'Signing signs, on the NIST P-256 curve, the SHA-256 hash of the bytes denoted by the hexadecimal message with the given private key and returns the 64 bytes r then s, whatever was done before in the process. Verification returns true exactly when the 64-byte signature verifies on P-256 with SHA-256 for the message (raw, or denoted by hexadecimal when unhexing is on) under the given key, given as a point, as 64 raw bytes or as a 33-byte compressed encoding, and gives false for malformed keys and signatures. The instance methods agree with the static ones, and signatures made for a key verify under its public key.',
 'every message within the length bound, every key and signature content; the curve operations under their contracts',
 'Tests sign and verify two or three constant messages.',
 [CR], [('Sign VerifySignature SetupSignatureCurve', CR)]),
('C29', 'Elliptic curve signatures verify exactly when they should',
 'On every curve group of prime order, a signature made with any private key, message and usable secret verifies under the matching public key. A pair (r, s) is accepted exactly when r and s are non-zero modulo the order and the x coordinate of G*(m/s)+Y*(r/s) equals r modulo the order. The helpers that recover the private key, from a known secret or from two signatures made with one secret, give the signing key, and those that recover the public key, from a signature and the parity of the point behind it or from two signatures of one message, give the matching public key. The predefined groups are the standard P-256 and secp256k1.',
 'all keys, messages, secrets and signature pairs over several small prime-order groups',
 'No existing test uses these functions.',
 [EC], [('ECDSA.sign verify calcpub crack1 crack2 findpk findpk2', EC)]),
('C30', 'Byte and hash helpers compute what they document',
 'The double SHA-256, hash160 and script hash helpers equal the composition of the standard hashes on exactly the given bytes, in their hexadecimal, raw and object forms (a script given as a single byte is raw); public keys become the redeem script 0x21, key, 0xac and its script hash. Base-256 encoding gives the little-endian bytes of the number padded to the requested width and rejects negatives; XOR of equal-length byte strings is bytewise and its own inverse, and other lengths are rejected. Swapping a 32 bit number reverses its bytes, and the 160/256 conversion helpers give the last 20/32 binary digits of the number.',
 'every number and byte string within bounds; hashes under their contracts',
 'Tests check one constant each.',
 [HP, CR, IO_W], [('base256_encode xor_bytes double_sha256 bin_hash160 pubkey_to_redeem', HP), ('Hash160 Hash256 ToScriptHash', CR), ('swap32 convert_to_uint160', IO_W)]),
('C31', 'Generated keys and nonces are unpredictable',
 'Private keys created for a new wallet and by the random key helper are uniformly distributed and unpredictable to an attacker.',
 'all attackers and all entropy states',
 'A statement about probability distributions, not about outputs.',
 [HP, CLI], [('random_key', HP), ('create_wallet', CLI)]),
('C32', 'Signatures cannot be forged and passphrases cannot be guessed cheaply',
 'Without the private key no signature that verifies can be produced, and recovering a key from its NEP-2 text without the passphrase costs as much as trying passphrases through scrypt.',
 'all adversaries',
 'A computational hardness assumption.',
 [CR, KP], [('Sign', CR), ('ExportNEP2', KP)]),
]
NA = {
 'C31': 'Unpredictability is a property of a probability distribution and of the operating system\'s entropy; an SMT query over executions of the code has no assertion that expresses it.',
 'C32': 'Computational hardness of the discrete logarithm and of scrypt is an assumption about all algorithms; symbolic execution of this code cannot decide it.',
}
