package kit

// Twins are pairs of different words that share a common 32-bit digest. For
// digests that work byte by byte they still do with the same text appended, and
// for cyclic redundancy checks also with the same text put in front.
var Twins = [][2]string{
	{"qbmdvsz4", "qnqbzrt2"}, // crc32 IEEE
	{"qxgsrtv7", "qkzqkdt8"}, // crc32 IEEE
	{"qfjntgv0", "qjvhxfx6"}, // crc32 IEEE
	{"qxmjzjh8", "qccvsss3"}, // crc32 Castagnoli
	{"qpkcnck3", "qhfxfvs2"}, // crc32 Castagnoli
	{"qqtdzqm9", "qjzxshv2"}, // crc32 Castagnoli
	{"qgzjvxb7", "qmkqpjf9"}, // fnv32
	{"qxrvkjv2", "qskftrn3"}, // fnv32
	{"qnbmszc9", "qzdprnk5"}, // fnv32
	{"qqzhtdd9", "qsfcdrg3"}, // fnv32a
	{"qrkjrns8", "qtkwxxb4"}, // fnv32a
	{"qvhdtsv9", "qxvkbtd1"}, // fnv32a
	{"qnhshdp3", "qxdvfvz2"}, // fnv64 low
	{"qdznpkm6", "qvvtcfg4"}, // fnv64 low
	{"qknmkvr4", "qnjpsgg2"}, // fnv64 low
	{"qvqdxpx3", "qvqdxpx2"}, // fnv64 high
	{"qxqdnfb9", "qsfdpsx6"}, // fnv64 high
	{"qfbfczz9", "qfbfczz8"}, // fnv64 high
	{"qwdppvp1", "qthxqzc8"}, // fnv64a low
	{"qjkkwck3", "qhhrcxm4"}, // fnv64a low
	{"qjtdcsh5", "qdxcgsw9"}, // fnv64a low
	{"qdpkvxk1", "qckszkz1"}, // fnv64a high
	{"qbtgngs5", "qxprmfx8"}, // fnv64a high
	{"qzvphjv5", "qcvhfgz4"}, // fnv64a high
	{"qdxrznx6", "qcpjkgv3"}, // fnv64 fold
	{"qhkchgk8", "qqfnmjx2"}, // fnv64 fold
	{"qmvhwmc5", "qjxghcm8"}, // fnv64 fold
	{"qwnkcpw5", "qvbdmnx1"}, // fnv64a fold
	{"qpwxnzc7", "qtrwqws1"}, // fnv64a fold
	{"qgpkwkx5", "qxphqwr2"}, // fnv64a fold
	{"qfhngbc8", "qfhnwzk7"}, // crc64 ISO low
	{"qxdfbtw4", "qxdfrsg4"}, // crc64 ISO low
	{"qdvfjxj5", "qdvfzws4"}, // crc64 ISO low
	{"qgwbpnw7", "qvpjkpt7"}, // crc64 ECMA low
	{"qcdkvnw7", "qrccmpt7"}, // crc64 ECMA low
	{"qwcjqhq8", "qfdbjvr8"}, // crc64 ECMA low
	{"qtmsvjq7", "qvzcgww4"}, // adler32
	{"qgsmfkh7", "qkfgxsc1"}, // adler32
	{"qhbqkdr6", "qqccfjr9"}, // adler32
	{"qvhtwfc4", "qqmtcgj0"}, // times 31
	{"qghdwwf8", "qbmdcxm4"}, // times 31
	{"qgbhmmc7", "qbggxnj3"}, // times 31
	{"qvhtwfc4", "qqmtcgj0"}, // times 31 seed 7
	{"qghdwwf8", "qbmdcxm4"}, // times 31 seed 7
	{"qgbhmmc7", "qbggxnj3"}, // times 31 seed 7
	{"qjzkqpb6", "qssdzwf3"}, // times 131
	{"qwvgjqj4", "qgwzzbf1"}, // times 131
	{"qcgxxvz6", "qdvcrbq6"}, // times 131
	{"qpcswsz2", "qsnkkmb6"}, // djb2
	{"qgqfdsk6", "qdfnpzb2"}, // djb2
	{"qvbkkcz9", "qrxswjq5"}, // djb2
	{"qfzkhwf7", "qzpbnzv3"}, // djb2a
	{"qgncvnv4", "qbggfcg0"}, // djb2a
	{"qtbhrgs5", "qqsdbbz1"}, // djb2a
	{"qcktqqj5", "qzmkqcj7"}, // sdbm
	{"qppkbgk2", "qqvzvvq3"}, // sdbm
	{"qxjxsfk9", "qtsntzc5"}, // sdbm
	{"qchvxkc8", "qkrxcdj9"}, // sum
	{"qwjwtjf6", "qftzxbm7"}, // sum
	{"qbcmwfv6", "qjmpbxb8"}, // sum
	{"qncsgpw1", "qdnfbrj9"}, // xor
	{"qphcjtd3", "qxpgwpm7"}, // xor
	{"qchvxkc8", "qkrxcdj9"}, // xor
}
