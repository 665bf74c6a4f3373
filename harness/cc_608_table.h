/* UTF-8 of the character codes 0x20 to 0xcf */
static const char *utf8[] = {
    " ",    "!",    "\"",    "#",    "$",    "%",    "&",    "'",
    "(",    ")",    "\xc3\xa1",    "+",    ",",    "-",    ".",    "/",
    "0",    "1",    "2",    "3",    "4",    "5",    "6",    "7",
    "8",    "9",    ":",    ";",    "<",    "=",    ">",    "?",
    "@",    "A",    "B",    "C",    "D",    "E",    "F",    "G",
    "H",    "I",    "J",    "K",    "L",    "M",    "N",    "O",
    "P",    "Q",    "R",    "S",    "T",    "U",    "V",    "W",
    "X",    "Y",    "Z",    "[",    "\xc3\xa9",    "]",    "\xc3\xad",    "\xc3\xb3",
    "\xc3\xba",    "a",    "b",    "c",    "d",    "e",    "f",    "g",
    "h",    "i",    "j",    "k",    "l",    "m",    "n",    "o",
    "p",    "q",    "r",    "s",    "t",    "u",    "v",    "w",
    "x",    "y",    "z",    "\xc3\xa7",    "\xc3\xb7",    "\xc3\x91",    "\xc3\xb1",    "\x7f",
    "\xc2\xae",    "\xc2\xb0",    "\xc2\xbd",    "\xc2\xbf",    "\xe2\x84\xa2",    "\xc2\xa2",    "\xc2\xa3",    "\xe2\x99\xaa",
    "\xc3\xa0",    "\xc2\xa0",    "\xc3\xa8",    "\xc3\xa2",    "\xc3\xaa",    "\xc3\xae",    "\xc3\xb4",    "\xc3\xbb",
    "\xc3\x81",    "\xc3\x89",    "\xc3\x93",    "\xc3\x9a",    "\xc3\x9c",    "\xc3\xbc",    "\x27",    "\xc2\xa1",
    "\x2a",    "\x27",    "\x2d",    "\xc2\xa9",    "\xe2\x84\xa0",    "\x2e",    "\xe2\x80\x9c",    "\xe2\x80\x9d",
    "\xc3\x80",    "\xc3\x82",    "\xc3\x87",    "\xc3\x88",    "\xc3\x8a",    "\xc3\x8b",    "\xc3\xab",    "\xc3\x8e",
    "\xc3\x8f",    "\xc3\xaf",    "\xc3\x94",    "\xc3\x99",    "\xc3\xb9",    "\xc3\x9b",    "\xc2\xab",    "\xc2\xbb",
    "\xc3\x83",    "\xc3\xa3",    "\xc3\x8d",    "\xc3\x8c",    "\xc3\xac",    "\xc3\x92",    "\xc3\xb2",    "\xc3\x95",
    "\xc3\xb5",    "\x7b",    "\x7d",    "\x5c",    "\x5e",    "\x5f",    "\xc2\xa6",    "\x7e",
    "\xc3\x84",    "\xc3\xa4",    "\xc3\x96",    "\xc3\xb6",    "\xc3\x9f",    "\xc2\xa5",    "\xc2\xa4",    "\x7c",
    "\xc3\x85",    "\xc3\xa5",    "\xc3\x98",    "\xc3\xb8",    "\xe2\x8c\x9c",    "\xe2\x8c\x9d",    "\xe2\x8c\x9e",    "\xe2\x8c\x9f",
};
