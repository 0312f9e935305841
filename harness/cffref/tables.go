package cffref

// Tables from the CFF specification (Adobe TN5176, appendices A-C).

// StdStrings are the 391 standard strings.
var StdStrings = []string{
	".notdef", "space", "exclam", "quotedbl", "numbersign", "dollar",
	"percent", "ampersand", "quoteright", "parenleft", "parenright", "asterisk",
	"plus", "comma", "hyphen", "period", "slash", "zero",
	"one", "two", "three", "four", "five", "six",
	"seven", "eight", "nine", "colon", "semicolon", "less",
	"equal", "greater", "question", "at", "A", "B",
	"C", "D", "E", "F", "G", "H",
	"I", "J", "K", "L", "M", "N",
	"O", "P", "Q", "R", "S", "T",
	"U", "V", "W", "X", "Y", "Z",
	"bracketleft", "backslash", "bracketright", "asciicircum", "underscore", "quoteleft",
	"a", "b", "c", "d", "e", "f",
	"g", "h", "i", "j", "k", "l",
	"m", "n", "o", "p", "q", "r",
	"s", "t", "u", "v", "w", "x",
	"y", "z", "braceleft", "bar", "braceright", "asciitilde",
	"exclamdown", "cent", "sterling", "fraction", "yen", "florin",
	"section", "currency", "quotesingle", "quotedblleft", "guillemotleft", "guilsinglleft",
	"guilsinglright", "fi", "fl", "endash", "dagger", "daggerdbl",
	"periodcentered", "paragraph", "bullet", "quotesinglbase", "quotedblbase", "quotedblright",
	"guillemotright", "ellipsis", "perthousand", "questiondown", "grave", "acute",
	"circumflex", "tilde", "macron", "breve", "dotaccent", "dieresis",
	"ring", "cedilla", "hungarumlaut", "ogonek", "caron", "emdash",
	"AE", "ordfeminine", "Lslash", "Oslash", "OE", "ordmasculine",
	"ae", "dotlessi", "lslash", "oslash", "oe", "germandbls",
	"onesuperior", "logicalnot", "mu", "trademark", "Eth", "onehalf",
	"plusminus", "Thorn", "onequarter", "divide", "brokenbar", "degree",
	"thorn", "threequarters", "twosuperior", "registered", "minus", "eth",
	"multiply", "threesuperior", "copyright", "Aacute", "Acircumflex", "Adieresis",
	"Agrave", "Aring", "Atilde", "Ccedilla", "Eacute", "Ecircumflex",
	"Edieresis", "Egrave", "Iacute", "Icircumflex", "Idieresis", "Igrave",
	"Ntilde", "Oacute", "Ocircumflex", "Odieresis", "Ograve", "Otilde",
	"Scaron", "Uacute", "Ucircumflex", "Udieresis", "Ugrave", "Yacute",
	"Ydieresis", "Zcaron", "aacute", "acircumflex", "adieresis", "agrave",
	"aring", "atilde", "ccedilla", "eacute", "ecircumflex", "edieresis",
	"egrave", "iacute", "icircumflex", "idieresis", "igrave", "ntilde",
	"oacute", "ocircumflex", "odieresis", "ograve", "otilde", "scaron",
	"uacute", "ucircumflex", "udieresis", "ugrave", "yacute", "ydieresis",
	"zcaron", "exclamsmall", "Hungarumlautsmall", "dollaroldstyle", "dollarsuperior", "ampersandsmall",
	"Acutesmall", "parenleftsuperior", "parenrightsuperior", "twodotenleader", "onedotenleader", "zerooldstyle",
	"oneoldstyle", "twooldstyle", "threeoldstyle", "fouroldstyle", "fiveoldstyle", "sixoldstyle",
	"sevenoldstyle", "eightoldstyle", "nineoldstyle", "commasuperior", "threequartersemdash", "periodsuperior",
	"questionsmall", "asuperior", "bsuperior", "centsuperior", "dsuperior", "esuperior",
	"isuperior", "lsuperior", "msuperior", "nsuperior", "osuperior", "rsuperior",
	"ssuperior", "tsuperior", "ff", "ffi", "ffl", "parenleftinferior",
	"parenrightinferior", "Circumflexsmall", "hyphensuperior", "Gravesmall", "Asmall", "Bsmall",
	"Csmall", "Dsmall", "Esmall", "Fsmall", "Gsmall", "Hsmall",
	"Ismall", "Jsmall", "Ksmall", "Lsmall", "Msmall", "Nsmall",
	"Osmall", "Psmall", "Qsmall", "Rsmall", "Ssmall", "Tsmall",
	"Usmall", "Vsmall", "Wsmall", "Xsmall", "Ysmall", "Zsmall",
	"colonmonetary", "onefitted", "rupiah", "Tildesmall", "exclamdownsmall", "centoldstyle",
	"Lslashsmall", "Scaronsmall", "Zcaronsmall", "Dieresissmall", "Brevesmall", "Caronsmall",
	"Dotaccentsmall", "Macronsmall", "figuredash", "hypheninferior", "Ogoneksmall", "Ringsmall",
	"Cedillasmall", "questiondownsmall", "oneeighth", "threeeighths", "fiveeighths", "seveneighths",
	"onethird", "twothirds", "zerosuperior", "foursuperior", "fivesuperior", "sixsuperior",
	"sevensuperior", "eightsuperior", "ninesuperior", "zeroinferior", "oneinferior", "twoinferior",
	"threeinferior", "fourinferior", "fiveinferior", "sixinferior", "seveninferior", "eightinferior",
	"nineinferior", "centinferior", "dollarinferior", "periodinferior", "commainferior", "Agravesmall",
	"Aacutesmall", "Acircumflexsmall", "Atildesmall", "Adieresissmall", "Aringsmall", "AEsmall",
	"Ccedillasmall", "Egravesmall", "Eacutesmall", "Ecircumflexsmall", "Edieresissmall", "Igravesmall",
	"Iacutesmall", "Icircumflexsmall", "Idieresissmall", "Ethsmall", "Ntildesmall", "Ogravesmall",
	"Oacutesmall", "Ocircumflexsmall", "Otildesmall", "Odieresissmall", "OEsmall", "Oslashsmall",
	"Ugravesmall", "Uacutesmall", "Ucircumflexsmall", "Udieresissmall", "Yacutesmall", "Thornsmall",
	"Ydieresissmall", "001.000", "001.001", "001.002", "001.003", "Black",
	"Bold", "Book", "Light", "Medium", "Regular", "Roman",
	"Semibold",
}

// Expert charset: list of SID ranges [first,last].
var expertRanges = [][2]int{{0, 1}, {229, 238}, {13, 15}, {99, 99}, {239, 248}, {27, 28}, {249, 266}, {109, 110}, {267, 318}, {158, 158}, {155, 155}, {163, 163}, {319, 326}, {150, 150}, {164, 164}, {169, 169}, {327, 378}}

// ExpertSubset charset: list of SID ranges [first,last].
var expertSubsetRanges = [][2]int{{0, 1}, {231, 232}, {235, 238}, {13, 15}, {99, 99}, {239, 248}, {27, 28}, {249, 251}, {253, 266}, {109, 110}, {267, 270}, {272, 272}, {300, 302}, {305, 305}, {314, 315}, {158, 158}, {155, 155}, {163, 163}, {320, 326}, {150, 150}, {164, 164}, {169, 169}, {327, 346}}

// expert encoding: code, SID
var expertEnc = [][2]int{
	{32, 1}, {33, 229}, {34, 230}, {36, 231}, {37, 232}, {38, 233}, {39, 234}, {40, 235}, {41, 236}, {42, 237},
	{43, 238}, {44, 13}, {45, 14}, {46, 15}, {47, 99}, {48, 239}, {49, 240}, {50, 241}, {51, 242}, {52, 243},
	{53, 244}, {54, 245}, {55, 246}, {56, 247}, {57, 248}, {58, 27}, {59, 28}, {60, 249}, {61, 250}, {62, 251},
	{63, 252}, {65, 253}, {66, 254}, {67, 255}, {68, 256}, {69, 257}, {73, 258}, {76, 259}, {77, 260}, {78, 261},
	{79, 262}, {82, 263}, {83, 264}, {84, 265}, {86, 266}, {87, 109}, {88, 110}, {89, 267}, {90, 268}, {91, 269},
	{93, 270}, {94, 271}, {95, 272}, {96, 273}, {97, 274}, {98, 275}, {99, 276}, {100, 277}, {101, 278}, {102, 279},
	{103, 280}, {104, 281}, {105, 282}, {106, 283}, {107, 284}, {108, 285}, {109, 286}, {110, 287}, {111, 288}, {112, 289},
	{113, 290}, {114, 291}, {115, 292}, {116, 293}, {117, 294}, {118, 295}, {119, 296}, {120, 297}, {121, 298}, {122, 299},
	{123, 300}, {124, 301}, {125, 302}, {126, 303}, {161, 304}, {162, 305}, {163, 306}, {166, 307}, {167, 308}, {168, 309},
	{169, 310}, {170, 311}, {172, 312}, {175, 313}, {178, 314}, {179, 315}, {182, 316}, {183, 317}, {184, 318}, {188, 158},
	{189, 155}, {190, 163}, {191, 319}, {192, 320}, {193, 321}, {194, 322}, {195, 323}, {196, 324}, {197, 325}, {200, 326},
	{201, 150}, {202, 164}, {203, 169}, {204, 327}, {205, 328}, {206, 329}, {207, 330}, {208, 331}, {209, 332}, {210, 333},
	{211, 334}, {212, 335}, {213, 336}, {214, 337}, {215, 338}, {216, 339}, {217, 340}, {218, 341}, {219, 342}, {220, 343},
	{221, 344}, {222, 345}, {223, 346}, {224, 347}, {225, 348}, {226, 349}, {227, 350}, {228, 351}, {229, 352}, {230, 353},
	{231, 354}, {232, 355}, {233, 356}, {234, 357}, {235, 358}, {236, 359}, {237, 360}, {238, 361}, {239, 362}, {240, 363},
	{241, 364}, {242, 365}, {243, 366}, {244, 367}, {245, 368}, {246, 369}, {247, 370}, {248, 371}, {249, 372}, {250, 373},
	{251, 374}, {252, 375}, {253, 376}, {254, 377}, {255, 378},
}
