package props

// collisions are pairs of names of one length that common 32-bit hash functions do not
// tell apart: alone, or after the given prefix (with any common suffix, and for the
// linear ones any common prefix).
var collisions = [][2]string{
	{"vihmrgo", "zunasii"}, // crc32 ""
	{"tumnwsd", "lxvfbke"}, // crc32c ""
	{"exuetrv", "dnghqwf"}, // crc32k ""
	{"hlklblu", "kfraewn"}, // adler32 ""
	{"gcgfted", "gcgvurb"}, // crc64 iso low ""
	{"dgsiucn", "nuklabs"}, // crc64 ecma low ""
	{"xglwhen", "jbcgcvj"}, // fnv1 ""
	{"whgrchy", "mvicbin"}, // fnv1 "O"
	{"inalddb", "jzmknkc"}, // fnv1 "(O"
	{"blryrob", "zgmybtm"}, // fnv1a ""
	{"sbkmjct", "efynjbv"}, // fnv1a "O"
	{"dnacfjg", "vlpobyk"}, // fnv1a "(O"
	{"okgunyu", "hdeqbye"}, // fnv64 low ""
	{"olrzuoa", "jljylot"}, // fnv64 low "O"
	{"ceyphuo", "qzlwhdg"}, // fnv64 low "(O"
	{"pgtnaku", "bnzadkr"}, // fnv64a low ""
	{"jwhplvj", "ztpwdcq"}, // fnv64a low "O"
	{"ljbbdfg", "ptcbghm"}, // fnv64a low "(O"
	{"kebatcw", "zsuihah"}, // fnv64a high ""
	{"ieekrqw", "ixdtdzt"}, // fnv64a folded ""
	{"cannfie", "sveseuy"}, // djb2 ""
	{"amsdrgk", "ytisgep"}, // djb2x ""
	{"kffyqsf", "zxizqlz"}, // djb2x "O"
	{"fpfqzch", "lgcgklx"}, // djb2x "(O"
	{"xomlqcc", "nylcspz"}, // java ""
	{"jejmpgz", "tylopiv"}, // java x ""
	{"apcaobt", "vghupxh"}, // java x "O"
	{"dejivxa", "dekvvxa"}, // java x "(O"
	{"ouxdxzd", "tvqetuy"}, // 37 ""
	{"ptvjqde", "rhmakro"}, // 131 ""
	{"pbcsaca", "qyujqyb"}, // sdbm ""
	{"ecpwmzj", "hjrcwdl"}, // 16777619 ""
	{"dfbtpll", "vmxdxpk"}, // jenkins ""
	{"kdxneug", "khklaug"}, // jenkins "O"
	{"ngwtofm", "tmdwgiq"}, // jenkins "(O"
	{"wjtnwbb", "jajrunz"}, // md5 ""
	{"eybbcsn", "twvspjf"}, // sha1 ""
	{"odkhrpn", "amzgamj"}, // sha256 ""
}
