/* Reference instruction sets: addressing mode -> opcode, checked against the
 * manufacturers' opcode maps.  Modes are numbered as in the assembler's
 * documentation of the forced extensions (0 implied, 1 immediate byte, ...). */
enum { M_IMP, M_IMM8, M_IMM16, M_Z, M_ZX, M_ZY, M_W, M_WX, M_WY, M_REL, M_BYTEREL, M_INDX, M_INDY, M_INDW, M_INDWX, M_INDZ, M_0X, M_0Y, M_BIT, M_BITBR, M_ZSP, M_WSP, NMODE };
struct mo { int mode; unsigned op; };
struct ins { const char *name; int flags; struct mo m[10]; int n; };
enum { I_MASK = 0x10, I_REL = 0x20, I_IMOD = 0x40 };
static const struct ins isa_6502[] = {
    {"adc", 0x00, {{1, 0x69}, {3, 0x65}, {4, 0x75}, {6, 0x6D}, {7, 0x7D}, {8, 0x79}, {11, 0x61}, {12, 0x71}}, 8},
    {"anc", 0x00, {{1, 0x0B}}, 1},
    {"and", 0x00, {{1, 0x29}, {3, 0x25}, {4, 0x35}, {6, 0x2D}, {7, 0x3D}, {8, 0x39}, {11, 0x21}, {12, 0x31}}, 8},
    {"ane", 0x00, {{1, 0x8B}}, 1},
    {"arr", 0x00, {{1, 0x6B}}, 1},
    {"asl", 0x00, {{0, 0x0A}, {3, 0x06}, {4, 0x16}, {6, 0x0E}, {7, 0x1E}}, 5},
    {"asr", 0x00, {{1, 0x4B}}, 1},
    {"bcc", 0x00, {{9, 0x90}}, 1},
    {"bcs", 0x00, {{9, 0xB0}}, 1},
    {"beq", 0x00, {{9, 0xF0}}, 1},
    {"bit", 0x00, {{3, 0x24}, {6, 0x2C}}, 2},
    {"bmi", 0x00, {{9, 0x30}}, 1},
    {"bne", 0x00, {{9, 0xD0}}, 1},
    {"bpl", 0x00, {{9, 0x10}}, 1},
    {"brk", 0x00, {{0, 0x00}}, 1},
    {"bvc", 0x00, {{9, 0x50}}, 1},
    {"bvs", 0x00, {{9, 0x70}}, 1},
    {"clc", 0x00, {{0, 0x18}}, 1},
    {"cld", 0x00, {{0, 0xD8}}, 1},
    {"cli", 0x00, {{0, 0x58}}, 1},
    {"clv", 0x00, {{0, 0xB8}}, 1},
    {"cmp", 0x00, {{1, 0xC9}, {3, 0xC5}, {4, 0xD5}, {6, 0xCD}, {7, 0xDD}, {8, 0xD9}, {11, 0xC1}, {12, 0xD1}}, 8},
    {"cpx", 0x00, {{1, 0xE0}, {3, 0xE4}, {6, 0xEC}}, 3},
    {"cpy", 0x00, {{1, 0xC0}, {3, 0xC4}, {6, 0xCC}}, 3},
    {"dcp", 0x00, {{3, 0xC7}, {4, 0xD7}, {6, 0xCF}, {7, 0xDF}, {8, 0xDB}, {11, 0xC3}, {12, 0xD3}}, 7},
    {"dec", 0x00, {{3, 0xC6}, {4, 0xD6}, {6, 0xCE}, {7, 0xDE}}, 4},
    {"dex", 0x00, {{0, 0xCA}}, 1},
    {"dey", 0x00, {{0, 0x88}}, 1},
    {"eor", 0x00, {{1, 0x49}, {3, 0x45}, {4, 0x55}, {6, 0x4D}, {7, 0x5D}, {8, 0x59}, {11, 0x41}, {12, 0x51}}, 8},
    {"inc", 0x00, {{3, 0xE6}, {4, 0xF6}, {6, 0xEE}, {7, 0xFE}}, 4},
    {"inx", 0x00, {{0, 0xE8}}, 1},
    {"iny", 0x00, {{0, 0xC8}}, 1},
    {"isb", 0x00, {{3, 0xE7}, {4, 0xF7}, {6, 0xEF}, {7, 0xFF}, {8, 0xFB}, {11, 0xE3}, {12, 0xF3}}, 7},
    {"jmp", 0x00, {{6, 0x4C}, {13, 0x6C}}, 2},
    {"jsr", 0x00, {{6, 0x20}}, 1},
    {"las", 0x00, {{8, 0xBB}}, 1},
    {"lax", 0x00, {{3, 0xA7}, {5, 0xB7}, {6, 0xAF}, {8, 0xBF}, {11, 0xA3}, {12, 0xB3}}, 6},
    {"lda", 0x00, {{1, 0xA9}, {3, 0xA5}, {4, 0xB5}, {6, 0xAD}, {7, 0xBD}, {8, 0xB9}, {11, 0xA1}, {12, 0xB1}}, 8},
    {"ldx", 0x00, {{1, 0xA2}, {3, 0xA6}, {5, 0xB6}, {6, 0xAE}, {8, 0xBE}}, 5},
    {"ldy", 0x00, {{1, 0xA0}, {3, 0xA4}, {4, 0xB4}, {6, 0xAC}, {7, 0xBC}}, 5},
    {"lsr", 0x00, {{0, 0x4A}, {3, 0x46}, {4, 0x56}, {6, 0x4E}, {7, 0x5E}}, 5},
    {"lxa", 0x00, {{1, 0xAB}}, 1},
    {"nop", 0x00, {{0, 0xEA}, {1, 0x80}, {3, 0x04}, {4, 0x14}, {6, 0x0C}, {7, 0x1C}}, 6},
    {"ora", 0x00, {{1, 0x09}, {3, 0x05}, {4, 0x15}, {6, 0x0D}, {7, 0x1D}, {8, 0x19}, {11, 0x01}, {12, 0x11}}, 8},
    {"pha", 0x00, {{0, 0x48}}, 1},
    {"php", 0x00, {{0, 0x08}}, 1},
    {"pla", 0x00, {{0, 0x68}}, 1},
    {"plp", 0x00, {{0, 0x28}}, 1},
    {"rla", 0x00, {{3, 0x27}, {4, 0x37}, {6, 0x2F}, {7, 0x3F}, {8, 0x3B}, {11, 0x23}, {12, 0x33}}, 7},
    {"rol", 0x00, {{0, 0x2A}, {3, 0x26}, {4, 0x36}, {6, 0x2E}, {7, 0x3E}}, 5},
    {"ror", 0x00, {{0, 0x6A}, {3, 0x66}, {4, 0x76}, {6, 0x6E}, {7, 0x7E}}, 5},
    {"rra", 0x00, {{3, 0x67}, {4, 0x77}, {6, 0x6F}, {7, 0x7F}, {8, 0x7B}, {11, 0x63}, {12, 0x73}}, 7},
    {"rti", 0x00, {{0, 0x40}}, 1},
    {"rts", 0x00, {{0, 0x60}}, 1},
    {"sax", 0x00, {{3, 0x87}, {5, 0x97}, {6, 0x8F}, {11, 0x83}}, 4},
    {"sbc", 0x00, {{1, 0xE9}, {3, 0xE5}, {4, 0xF5}, {6, 0xED}, {7, 0xFD}, {8, 0xF9}, {11, 0xE1}, {12, 0xF1}}, 8},
    {"sbx", 0x00, {{1, 0xCB}}, 1},
    {"sec", 0x00, {{0, 0x38}}, 1},
    {"sed", 0x00, {{0, 0xF8}}, 1},
    {"sei", 0x00, {{0, 0x78}}, 1},
    {"sha", 0x00, {{8, 0x9F}, {12, 0x93}}, 2},
    {"shs", 0x00, {{8, 0x9B}}, 1},
    {"shx", 0x00, {{8, 0x9E}}, 1},
    {"shy", 0x00, {{7, 0x9C}}, 1},
    {"slo", 0x00, {{3, 0x07}, {4, 0x17}, {6, 0x0F}, {7, 0x1F}, {8, 0x1B}, {11, 0x03}, {12, 0x13}}, 7},
    {"sre", 0x00, {{3, 0x47}, {4, 0x57}, {6, 0x4F}, {7, 0x5F}, {8, 0x5B}, {11, 0x43}, {12, 0x53}}, 7},
    {"sta", 0x00, {{3, 0x85}, {4, 0x95}, {6, 0x8D}, {7, 0x9D}, {8, 0x99}, {11, 0x81}, {12, 0x91}}, 7},
    {"stx", 0x00, {{3, 0x86}, {5, 0x96}, {6, 0x8E}}, 3},
    {"sty", 0x00, {{3, 0x84}, {4, 0x94}, {6, 0x8C}}, 3},
    {"tax", 0x00, {{0, 0xAA}}, 1},
    {"tay", 0x00, {{0, 0xA8}}, 1},
    {"tsx", 0x00, {{0, 0xBA}}, 1},
    {"txa", 0x00, {{0, 0x8A}}, 1},
    {"txs", 0x00, {{0, 0x9A}}, 1},
    {"tya", 0x00, {{0, 0x98}}, 1},
};
static const struct ins isa_65c02[] = {
    {"adc", 0x00, {{1, 0x69}, {3, 0x65}, {4, 0x75}, {6, 0x6D}, {7, 0x7D}, {8, 0x79}, {11, 0x61}, {12, 0x71}, {15, 0x72}}, 9},
    {"and", 0x00, {{1, 0x29}, {3, 0x25}, {4, 0x35}, {6, 0x2D}, {7, 0x3D}, {8, 0x39}, {11, 0x21}, {12, 0x31}, {15, 0x32}}, 9},
    {"asl", 0x00, {{0, 0x0A}, {3, 0x06}, {4, 0x16}, {6, 0x0E}, {7, 0x1E}}, 5},
    {"bbr0", 0x00, {{10, 0x0F}}, 1},
    {"bbr1", 0x00, {{10, 0x1F}}, 1},
    {"bbr2", 0x00, {{10, 0x2F}}, 1},
    {"bbr3", 0x00, {{10, 0x3F}}, 1},
    {"bbr4", 0x00, {{10, 0x4F}}, 1},
    {"bbr5", 0x00, {{10, 0x5F}}, 1},
    {"bbr6", 0x00, {{10, 0x6F}}, 1},
    {"bbr7", 0x00, {{10, 0x7F}}, 1},
    {"bbs0", 0x00, {{10, 0x8F}}, 1},
    {"bbs1", 0x00, {{10, 0x9F}}, 1},
    {"bbs2", 0x00, {{10, 0xAF}}, 1},
    {"bbs3", 0x00, {{10, 0xBF}}, 1},
    {"bbs4", 0x00, {{10, 0xCF}}, 1},
    {"bbs5", 0x00, {{10, 0xDF}}, 1},
    {"bbs6", 0x00, {{10, 0xEF}}, 1},
    {"bbs7", 0x00, {{10, 0xFF}}, 1},
    {"bcc", 0x00, {{9, 0x90}}, 1},
    {"bcs", 0x00, {{9, 0xB0}}, 1},
    {"beq", 0x00, {{9, 0xF0}}, 1},
    {"bit", 0x00, {{1, 0x89}, {3, 0x24}, {4, 0x34}, {6, 0x2C}, {7, 0x3C}}, 5},
    {"bmi", 0x00, {{9, 0x30}}, 1},
    {"bne", 0x00, {{9, 0xD0}}, 1},
    {"bpl", 0x00, {{9, 0x10}}, 1},
    {"bra", 0x00, {{9, 0x80}}, 1},
    {"brk", 0x00, {{0, 0x00}}, 1},
    {"bvc", 0x00, {{9, 0x50}}, 1},
    {"bvs", 0x00, {{9, 0x70}}, 1},
    {"clc", 0x00, {{0, 0x18}}, 1},
    {"cld", 0x00, {{0, 0xD8}}, 1},
    {"cli", 0x00, {{0, 0x58}}, 1},
    {"clv", 0x00, {{0, 0xB8}}, 1},
    {"cmp", 0x00, {{1, 0xC9}, {3, 0xC5}, {4, 0xD5}, {6, 0xCD}, {7, 0xDD}, {8, 0xD9}, {11, 0xC1}, {12, 0xD1}, {15, 0xD2}}, 9},
    {"cpx", 0x00, {{1, 0xE0}, {3, 0xE4}, {6, 0xEC}}, 3},
    {"cpy", 0x00, {{1, 0xC0}, {3, 0xC4}, {6, 0xCC}}, 3},
    {"dec", 0x00, {{3, 0xC6}, {4, 0xD6}, {6, 0xCE}, {7, 0xDE}}, 4},
    {"dea", 0x00, {{0, 0x3A}}, 1},
    {"dex", 0x00, {{0, 0xCA}}, 1},
    {"dey", 0x00, {{0, 0x88}}, 1},
    {"eor", 0x00, {{1, 0x49}, {3, 0x45}, {4, 0x55}, {6, 0x4D}, {7, 0x5D}, {8, 0x59}, {11, 0x41}, {12, 0x51}, {15, 0x52}}, 9},
    {"ina", 0x00, {{0, 0x1A}}, 1},
    {"inc", 0x00, {{3, 0xE6}, {4, 0xF6}, {6, 0xEE}, {7, 0xFE}}, 4},
    {"inx", 0x00, {{0, 0xE8}}, 1},
    {"iny", 0x00, {{0, 0xC8}}, 1},
    {"jmp", 0x00, {{6, 0x4C}, {13, 0x6C}, {14, 0x7C}}, 3},
    {"jsr", 0x00, {{6, 0x20}}, 1},
    {"lda", 0x00, {{1, 0xA9}, {3, 0xA5}, {4, 0xB5}, {6, 0xAD}, {7, 0xBD}, {8, 0xB9}, {11, 0xA1}, {12, 0xB1}, {15, 0xB2}}, 9},
    {"ldx", 0x00, {{1, 0xA2}, {3, 0xA6}, {5, 0xB6}, {6, 0xAE}, {8, 0xBE}}, 5},
    {"ldy", 0x00, {{1, 0xA0}, {3, 0xA4}, {4, 0xB4}, {6, 0xAC}, {7, 0xBC}}, 5},
    {"lsr", 0x00, {{0, 0x4A}, {3, 0x46}, {4, 0x56}, {6, 0x4E}, {7, 0x5E}}, 5},
    {"nop", 0x00, {{0, 0xEA}}, 1},
    {"ora", 0x00, {{1, 0x09}, {3, 0x05}, {4, 0x15}, {6, 0x0D}, {7, 0x1D}, {8, 0x19}, {11, 0x01}, {12, 0x11}, {15, 0x12}}, 9},
    {"pha", 0x00, {{0, 0x48}}, 1},
    {"phx", 0x00, {{0, 0xDA}}, 1},
    {"phy", 0x00, {{0, 0x5A}}, 1},
    {"php", 0x00, {{0, 0x08}}, 1},
    {"pla", 0x00, {{0, 0x68}}, 1},
    {"plp", 0x00, {{0, 0x28}}, 1},
    {"plx", 0x00, {{0, 0xFA}}, 1},
    {"ply", 0x00, {{0, 0x7A}}, 1},
    {"rmb0", 0x00, {{3, 0x07}}, 1},
    {"rmb1", 0x00, {{3, 0x17}}, 1},
    {"rmb2", 0x00, {{3, 0x27}}, 1},
    {"rmb3", 0x00, {{3, 0x37}}, 1},
    {"rmb4", 0x00, {{3, 0x47}}, 1},
    {"rmb5", 0x00, {{3, 0x57}}, 1},
    {"rmb6", 0x00, {{3, 0x67}}, 1},
    {"rmb7", 0x00, {{3, 0x77}}, 1},
    {"rol", 0x00, {{0, 0x2A}, {3, 0x26}, {4, 0x36}, {6, 0x2E}, {7, 0x3E}}, 5},
    {"ror", 0x00, {{0, 0x6A}, {3, 0x66}, {4, 0x76}, {6, 0x6E}, {7, 0x7E}}, 5},
    {"rti", 0x00, {{0, 0x40}}, 1},
    {"rts", 0x00, {{0, 0x60}}, 1},
    {"sbc", 0x00, {{1, 0xE9}, {3, 0xE5}, {4, 0xF5}, {6, 0xED}, {7, 0xFD}, {8, 0xF9}, {11, 0xE1}, {12, 0xF1}, {15, 0xF2}}, 9},
    {"sec", 0x00, {{0, 0x38}}, 1},
    {"sed", 0x00, {{0, 0xF8}}, 1},
    {"sei", 0x00, {{0, 0x78}}, 1},
    {"smb0", 0x00, {{3, 0x87}}, 1},
    {"smb1", 0x00, {{3, 0x97}}, 1},
    {"smb2", 0x00, {{3, 0xA7}}, 1},
    {"smb3", 0x00, {{3, 0xB7}}, 1},
    {"smb4", 0x00, {{3, 0xC7}}, 1},
    {"smb5", 0x00, {{3, 0xD7}}, 1},
    {"smb6", 0x00, {{3, 0xE7}}, 1},
    {"smb7", 0x00, {{3, 0xF7}}, 1},
    {"sta", 0x00, {{3, 0x85}, {4, 0x95}, {6, 0x8D}, {7, 0x9D}, {8, 0x99}, {11, 0x81}, {12, 0x91}, {15, 0x92}}, 8},
    {"stx", 0x00, {{3, 0x86}, {5, 0x96}, {6, 0x8E}}, 3},
    {"stp", 0x00, {{0, 0xDB}}, 1},
    {"sty", 0x00, {{3, 0x84}, {4, 0x94}, {6, 0x8C}}, 3},
    {"stz", 0x00, {{3, 0x64}, {4, 0x74}, {6, 0x9C}, {7, 0x9E}}, 4},
    {"tax", 0x00, {{0, 0xAA}}, 1},
    {"tay", 0x00, {{0, 0xA8}}, 1},
    {"trb", 0x00, {{3, 0x14}, {6, 0x1C}}, 2},
    {"tsb", 0x00, {{3, 0x04}, {6, 0x0C}}, 2},
    {"tsx", 0x00, {{0, 0xBA}}, 1},
    {"txa", 0x00, {{0, 0x8A}}, 1},
    {"txs", 0x00, {{0, 0x9A}}, 1},
    {"tya", 0x00, {{0, 0x98}}, 1},
    {"wai", 0x00, {{0, 0xCB}}, 1},
};
static const struct ins isa_68705[] = {
    {"adc", 0x00, {{1, 0xA9}, {3, 0xB9}, {4, 0xE9}, {6, 0xC9}, {7, 0xD9}, {16, 0xF9}}, 6},
    {"add", 0x00, {{1, 0xAB}, {3, 0xBB}, {4, 0xEB}, {6, 0xCB}, {7, 0xDB}, {16, 0xFB}}, 6},
    {"and", 0x00, {{1, 0xA4}, {3, 0xB4}, {4, 0xE4}, {6, 0xC4}, {7, 0xD4}, {16, 0xF4}}, 6},
    {"asl", 0x00, {{0, 0x48}, {3, 0x38}, {4, 0x68}, {16, 0x78}}, 4},
    {"asla", 0x00, {{0, 0x48}}, 1},
    {"aslx", 0x00, {{0, 0x58}}, 1},
    {"asr", 0x00, {{0, 0x47}, {3, 0x37}, {4, 0x67}, {16, 0x77}}, 4},
    {"asra", 0x00, {{0, 0x47}}, 1},
    {"asrx", 0x00, {{0, 0x57}}, 1},
    {"bcc", 0x00, {{9, 0x24}}, 1},
    {"bclr", 0x40, {{18, 0x11}}, 1},
    {"bcs", 0x00, {{9, 0x25}}, 1},
    {"beq", 0x00, {{9, 0x27}}, 1},
    {"bhcc", 0x00, {{9, 0x28}}, 1},
    {"bhcs", 0x00, {{9, 0x29}}, 1},
    {"bhi", 0x00, {{9, 0x22}}, 1},
    {"bhs", 0x00, {{9, 0x24}}, 1},
    {"bih", 0x00, {{9, 0x2F}}, 1},
    {"bil", 0x00, {{9, 0x2E}}, 1},
    {"bit", 0x00, {{1, 0xA5}, {3, 0xB5}, {4, 0xE5}, {6, 0xC5}, {7, 0xD5}, {16, 0xF5}}, 6},
    {"blo", 0x00, {{9, 0x25}}, 1},
    {"bls", 0x00, {{9, 0x23}}, 1},
    {"bmc", 0x00, {{9, 0x2C}}, 1},
    {"bmi", 0x00, {{9, 0x2B}}, 1},
    {"bms", 0x00, {{9, 0x2D}}, 1},
    {"bne", 0x00, {{9, 0x26}}, 1},
    {"bpl", 0x00, {{9, 0x2A}}, 1},
    {"bra", 0x00, {{9, 0x20}}, 1},
    {"brn", 0x00, {{9, 0x21}}, 1},
    {"brclr", 0x60, {{19, 0x01}}, 1},
    {"brset", 0x60, {{19, 0x00}}, 1},
    {"bset", 0x40, {{18, 0x10}}, 1},
    {"bsr", 0x00, {{9, 0xAD}}, 1},
    {"clc", 0x00, {{0, 0x98}}, 1},
    {"cli", 0x00, {{0, 0x9A}}, 1},
    {"clr", 0x00, {{0, 0x4F}, {3, 0x3F}, {4, 0x6F}, {16, 0x7F}}, 4},
    {"clra", 0x00, {{0, 0x4F}}, 1},
    {"clrx", 0x00, {{0, 0x5F}}, 1},
    {"cmp", 0x00, {{1, 0xA1}, {3, 0xB1}, {4, 0xE1}, {6, 0xC1}, {7, 0xD1}, {16, 0xF1}}, 6},
    {"com", 0x00, {{0, 0x43}, {3, 0x33}, {4, 0x63}, {16, 0x73}}, 4},
    {"coma", 0x00, {{0, 0x43}}, 1},
    {"comx", 0x00, {{0, 0x53}}, 1},
    {"cpx", 0x00, {{1, 0xA3}, {3, 0xB3}, {4, 0xE3}, {6, 0xC3}, {7, 0xD3}, {16, 0xF3}}, 6},
    {"dec", 0x00, {{0, 0x4A}, {3, 0x3A}, {4, 0x6A}, {16, 0x7A}}, 4},
    {"deca", 0x00, {{0, 0x4A}}, 1},
    {"decx", 0x00, {{0, 0x5A}}, 1},
    {"dex", 0x00, {{0, 0x5A}}, 1},
    {"eor", 0x00, {{1, 0xA8}, {3, 0xB8}, {4, 0xE8}, {6, 0xC8}, {7, 0xD8}, {16, 0xF8}}, 6},
    {"inc", 0x00, {{0, 0x4C}, {3, 0x3C}, {4, 0x6C}, {16, 0x7C}}, 4},
    {"inca", 0x00, {{0, 0x4C}}, 1},
    {"incx", 0x00, {{0, 0x5C}}, 1},
    {"inx", 0x00, {{0, 0x5C}}, 1},
    {"jmp", 0x00, {{3, 0xBC}, {4, 0xEC}, {6, 0xCC}, {7, 0xDC}, {16, 0xFC}}, 5},
    {"jsr", 0x00, {{3, 0xBD}, {4, 0xED}, {6, 0xCD}, {7, 0xDD}, {16, 0xFD}}, 5},
    {"lda", 0x00, {{1, 0xA6}, {3, 0xB6}, {4, 0xE6}, {6, 0xC6}, {7, 0xD6}, {16, 0xF6}}, 6},
    {"ldx", 0x00, {{1, 0xAE}, {3, 0xBE}, {4, 0xEE}, {6, 0xCE}, {7, 0xDE}, {16, 0xFE}}, 6},
    {"lsl", 0x00, {{0, 0x48}, {3, 0x38}, {4, 0x68}, {16, 0x78}}, 4},
    {"lsla", 0x00, {{0, 0x48}}, 1},
    {"lslx", 0x00, {{0, 0x58}}, 1},
    {"lsr", 0x00, {{0, 0x44}, {3, 0x34}, {4, 0x64}, {16, 0x74}}, 4},
    {"lsra", 0x00, {{0, 0x44}}, 1},
    {"lsrx", 0x00, {{0, 0x54}}, 1},
    {"neg", 0x00, {{0, 0x40}, {3, 0x30}, {4, 0x60}, {16, 0x70}}, 4},
    {"nega", 0x00, {{0, 0x40}}, 1},
    {"negx", 0x00, {{0, 0x50}}, 1},
    {"nop", 0x00, {{0, 0x9D}}, 1},
    {"ora", 0x00, {{1, 0xAA}, {3, 0xBA}, {4, 0xEA}, {6, 0xCA}, {7, 0xDA}, {16, 0xFA}}, 6},
    {"rol", 0x00, {{0, 0x49}, {3, 0x39}, {4, 0x69}, {16, 0x79}}, 4},
    {"rola", 0x00, {{0, 0x49}}, 1},
    {"rolx", 0x00, {{0, 0x59}}, 1},
    {"ror", 0x00, {{0, 0x46}, {3, 0x36}, {4, 0x66}, {16, 0x76}}, 4},
    {"rora", 0x00, {{0, 0x46}}, 1},
    {"rorx", 0x00, {{0, 0x56}}, 1},
    {"rsp", 0x00, {{0, 0x9C}}, 1},
    {"rti", 0x00, {{0, 0x80}}, 1},
    {"rts", 0x00, {{0, 0x81}}, 1},
    {"sbc", 0x00, {{1, 0xA2}, {3, 0xB2}, {4, 0xE2}, {6, 0xC2}, {7, 0xD2}, {16, 0xF2}}, 6},
    {"sec", 0x00, {{0, 0x99}}, 1},
    {"sei", 0x00, {{0, 0x9B}}, 1},
    {"sta", 0x00, {{3, 0xB7}, {4, 0xE7}, {6, 0xC7}, {7, 0xD7}, {16, 0xF7}}, 5},
    {"stx", 0x00, {{3, 0xBF}, {4, 0xEF}, {6, 0xCF}, {7, 0xDF}, {16, 0xFF}}, 5},
    {"sub", 0x00, {{1, 0xA0}, {3, 0xB0}, {4, 0xE0}, {6, 0xC0}, {7, 0xD0}, {16, 0xF0}}, 6},
    {"swi", 0x00, {{0, 0x83}}, 1},
    {"tax", 0x00, {{0, 0x97}}, 1},
    {"tst", 0x00, {{0, 0x4D}, {3, 0x3D}, {4, 0x6D}, {16, 0x7D}}, 4},
    {"tsta", 0x00, {{0, 0x4D}}, 1},
    {"tstx", 0x00, {{0, 0x5D}}, 1},
    {"txa", 0x00, {{0, 0x9F}}, 1},
};
static const struct ins isa_68hc11[] = {
    {"aba", 0x00, {{0, 0x1B}}, 1},
    {"abx", 0x00, {{0, 0x3A}}, 1},
    {"aby", 0x00, {{0, 0x183A}}, 1},
    {"adca", 0x00, {{1, 0x89}, {3, 0x99}, {4, 0xA9}, {5, 0x18A9}, {6, 0xB9}}, 5},
    {"adcb", 0x00, {{1, 0xC9}, {3, 0xD9}, {4, 0xE9}, {5, 0x18E9}, {6, 0xF9}}, 5},
    {"adda", 0x00, {{1, 0x8B}, {3, 0x9B}, {4, 0xAB}, {5, 0x18AB}, {6, 0xBB}}, 5},
    {"addb", 0x00, {{1, 0xCB}, {3, 0xDB}, {4, 0xEB}, {5, 0x18EB}, {6, 0xFB}}, 5},
    {"addd", 0x00, {{2, 0xC3}, {3, 0xD3}, {4, 0xE3}, {5, 0x18E3}, {6, 0xF3}}, 5},
    {"anda", 0x00, {{1, 0x84}, {3, 0x94}, {4, 0xA4}, {5, 0x18A4}, {6, 0xB4}}, 5},
    {"andb", 0x00, {{1, 0xC4}, {3, 0xD4}, {4, 0xE4}, {5, 0x18E4}, {6, 0xF4}}, 5},
    {"asla", 0x00, {{0, 0x48}}, 1},
    {"aslb", 0x00, {{0, 0x58}}, 1},
    {"asl", 0x00, {{4, 0x68}, {5, 0x1868}, {6, 0x78}}, 3},
    {"asld", 0x00, {{0, 0x05}}, 1},
    {"asra", 0x00, {{0, 0x47}}, 1},
    {"asrb", 0x00, {{0, 0x57}}, 1},
    {"asr", 0x00, {{4, 0x67}, {5, 0x1867}, {6, 0x77}}, 3},
    {"bcc", 0x00, {{9, 0x24}}, 1},
    {"bclr", 0x10, {{3, 0x15}, {4, 0x1D}, {5, 0x181D}}, 3},
    {"bcs", 0x00, {{9, 0x25}}, 1},
    {"beq", 0x00, {{9, 0x27}}, 1},
    {"bge", 0x00, {{9, 0x2C}}, 1},
    {"bgt", 0x00, {{9, 0x2E}}, 1},
    {"bhi", 0x00, {{9, 0x22}}, 1},
    {"bhs", 0x00, {{9, 0x24}}, 1},
    {"bita", 0x00, {{1, 0x85}, {3, 0x95}, {4, 0xA5}, {5, 0x18A5}, {6, 0xB5}}, 5},
    {"bitb", 0x00, {{1, 0xC5}, {3, 0xD5}, {4, 0xE5}, {5, 0x18E5}, {6, 0xF5}}, 5},
    {"ble", 0x00, {{9, 0x2F}}, 1},
    {"blo", 0x00, {{9, 0x25}}, 1},
    {"bls", 0x00, {{9, 0x23}}, 1},
    {"blt", 0x00, {{9, 0x2D}}, 1},
    {"bmi", 0x00, {{9, 0x2B}}, 1},
    {"bne", 0x00, {{9, 0x26}}, 1},
    {"bpl", 0x00, {{9, 0x2A}}, 1},
    {"bra", 0x00, {{9, 0x20}}, 1},
    {"brclr", 0x30, {{3, 0x13}, {4, 0x1F}, {5, 0x181F}}, 3},
    {"brn", 0x00, {{9, 0x21}}, 1},
    {"brset", 0x30, {{3, 0x12}, {4, 0x1E}, {5, 0x181E}}, 3},
    {"bset", 0x10, {{3, 0x14}, {4, 0x1C}, {5, 0x181C}}, 3},
    {"bsr", 0x00, {{9, 0x8D}}, 1},
    {"bvc", 0x00, {{9, 0x28}}, 1},
    {"bvs", 0x00, {{9, 0x29}}, 1},
    {"cba", 0x00, {{0, 0x11}}, 1},
    {"clc", 0x00, {{0, 0x0C}}, 1},
    {"cli", 0x00, {{0, 0x0E}}, 1},
    {"clra", 0x00, {{0, 0x4F}}, 1},
    {"clrb", 0x00, {{0, 0x5F}}, 1},
    {"clr", 0x00, {{4, 0x6F}, {5, 0x186F}, {6, 0x7F}}, 3},
    {"clv", 0x00, {{0, 0x0A}}, 1},
    {"cmpa", 0x00, {{1, 0x81}, {3, 0x91}, {4, 0xA1}, {5, 0x18A1}, {6, 0xB1}}, 5},
    {"cmpb", 0x00, {{1, 0xC1}, {3, 0xD1}, {4, 0xE1}, {5, 0x18E1}, {6, 0xF1}}, 5},
    {"coma", 0x00, {{0, 0x43}}, 1},
    {"comb", 0x00, {{0, 0x53}}, 1},
    {"com", 0x00, {{4, 0x63}, {5, 0x1863}, {6, 0x73}}, 3},
    {"cpd", 0x00, {{2, 0x1A83}, {3, 0x1A93}, {4, 0x1AA3}, {5, 0xCDA3}, {6, 0x1AB3}}, 5},
    {"cpx", 0x00, {{2, 0x8C}, {3, 0x9C}, {4, 0xAC}, {5, 0xCDAC}, {6, 0xBC}}, 5},
    {"cpy", 0x00, {{2, 0x188C}, {3, 0x189C}, {4, 0x1AAC}, {5, 0x18AC}, {6, 0x18BC}}, 5},
    {"daa", 0x00, {{0, 0x19}}, 1},
    {"deca", 0x00, {{0, 0x4A}}, 1},
    {"decb", 0x00, {{0, 0x5A}}, 1},
    {"dec", 0x00, {{4, 0x6A}, {5, 0x186A}, {6, 0x7A}}, 3},
    {"des", 0x00, {{0, 0x34}}, 1},
    {"dex", 0x00, {{0, 0x09}}, 1},
    {"dey", 0x00, {{0, 0x1809}}, 1},
    {"eora", 0x00, {{1, 0x88}, {3, 0x98}, {4, 0xA8}, {5, 0x18A8}, {6, 0xB8}}, 5},
    {"eorb", 0x00, {{1, 0xC8}, {3, 0xD8}, {4, 0xE8}, {5, 0x18E8}, {6, 0xF8}}, 5},
    {"fdiv", 0x00, {{0, 0x03}}, 1},
    {"idiv", 0x00, {{0, 0x02}}, 1},
    {"inca", 0x00, {{0, 0x4C}}, 1},
    {"incb", 0x00, {{0, 0x5C}}, 1},
    {"inc", 0x00, {{4, 0x6C}, {5, 0x186C}, {6, 0x7C}}, 3},
    {"ins", 0x00, {{0, 0x31}}, 1},
    {"inx", 0x00, {{0, 0x08}}, 1},
    {"iny", 0x00, {{0, 0x1808}}, 1},
    {"jmp", 0x00, {{4, 0x6E}, {5, 0x186E}, {6, 0x7E}}, 3},
    {"jsr", 0x00, {{3, 0x9D}, {4, 0xAD}, {5, 0x18AD}, {6, 0xBD}}, 4},
    {"ldaa", 0x00, {{1, 0x86}, {3, 0x96}, {4, 0xA6}, {5, 0x18A6}, {6, 0xB6}}, 5},
    {"ldab", 0x00, {{1, 0xC6}, {3, 0xD6}, {4, 0xE6}, {5, 0x18E6}, {6, 0xF6}}, 5},
    {"ldd", 0x00, {{2, 0xCC}, {3, 0xDC}, {4, 0xEC}, {5, 0x18EC}, {6, 0xFC}}, 5},
    {"lds", 0x00, {{2, 0x8E}, {3, 0x9E}, {4, 0xAE}, {5, 0x18AE}, {6, 0xBE}}, 5},
    {"ldx", 0x00, {{2, 0xCE}, {3, 0xDE}, {4, 0xEE}, {5, 0xCDEE}, {6, 0xFE}}, 5},
    {"ldy", 0x00, {{2, 0x18CE}, {3, 0x18DE}, {4, 0x1AEE}, {5, 0x18EE}, {6, 0x18FE}}, 5},
    {"lsla", 0x00, {{0, 0x48}}, 1},
    {"lslb", 0x00, {{0, 0x58}}, 1},
    {"lsl", 0x00, {{4, 0x68}, {5, 0x1868}, {6, 0x78}}, 3},
    {"lsld", 0x00, {{0, 0x05}}, 1},
    {"lsra", 0x00, {{0, 0x44}}, 1},
    {"lsrb", 0x00, {{0, 0x54}}, 1},
    {"lsr", 0x00, {{4, 0x64}, {5, 0x1864}, {6, 0x74}}, 3},
    {"lsrd", 0x00, {{0, 0x04}}, 1},
    {"mul", 0x00, {{0, 0x3D}}, 1},
    {"nega", 0x00, {{0, 0x40}}, 1},
    {"negb", 0x00, {{0, 0x50}}, 1},
    {"neg", 0x00, {{4, 0x60}, {5, 0x1860}, {6, 0x70}}, 3},
    {"nop", 0x00, {{0, 0x01}}, 1},
    {"oraa", 0x00, {{1, 0x8A}, {3, 0x9A}, {4, 0xAA}, {5, 0x18AA}, {6, 0xBA}}, 5},
    {"orab", 0x00, {{1, 0xCA}, {3, 0xDA}, {4, 0xEA}, {5, 0x18EA}, {6, 0xFA}}, 5},
    {"psha", 0x00, {{0, 0x36}}, 1},
    {"pshb", 0x00, {{0, 0x37}}, 1},
    {"pshx", 0x00, {{0, 0x3C}}, 1},
    {"pshy", 0x00, {{0, 0x183C}}, 1},
    {"pula", 0x00, {{0, 0x32}}, 1},
    {"pulb", 0x00, {{0, 0x33}}, 1},
    {"pulx", 0x00, {{0, 0x38}}, 1},
    {"puly", 0x00, {{0, 0x1838}}, 1},
    {"rola", 0x00, {{0, 0x49}}, 1},
    {"rolb", 0x00, {{0, 0x59}}, 1},
    {"rol", 0x00, {{4, 0x69}, {5, 0x1869}, {6, 0x79}}, 3},
    {"rora", 0x00, {{0, 0x46}}, 1},
    {"rorb", 0x00, {{0, 0x56}}, 1},
    {"ror", 0x00, {{4, 0x66}, {5, 0x1866}, {6, 0x76}}, 3},
    {"rti", 0x00, {{0, 0x3B}}, 1},
    {"rts", 0x00, {{0, 0x39}}, 1},
    {"sba", 0x00, {{0, 0x10}}, 1},
    {"sbca", 0x00, {{1, 0x82}, {3, 0x92}, {4, 0xA2}, {5, 0x18A2}, {6, 0xB2}}, 5},
    {"sbcb", 0x00, {{1, 0xC2}, {3, 0xD2}, {4, 0xE2}, {5, 0x18E2}, {6, 0xF2}}, 5},
    {"sec", 0x00, {{0, 0x0D}}, 1},
    {"sei", 0x00, {{0, 0x0F}}, 1},
    {"sev", 0x00, {{0, 0x0B}}, 1},
    {"staa", 0x00, {{3, 0x97}, {4, 0xA7}, {5, 0x18A7}, {6, 0xB7}}, 4},
    {"stab", 0x00, {{3, 0xD7}, {4, 0xE7}, {5, 0x18E7}, {6, 0xF7}}, 4},
    {"std", 0x00, {{3, 0xDD}, {4, 0xED}, {5, 0x18ED}, {6, 0xFD}}, 4},
    {"stop", 0x00, {{0, 0xCF}}, 1},
    {"sts", 0x00, {{3, 0x9F}, {4, 0xAF}, {5, 0x18AF}, {6, 0xBF}}, 4},
    {"stx", 0x00, {{3, 0xDF}, {4, 0xEF}, {5, 0xCDEF}, {6, 0xFF}}, 4},
    {"sty", 0x00, {{3, 0x18DF}, {4, 0x1AEF}, {5, 0x18EF}, {6, 0x18FF}}, 4},
    {"suba", 0x00, {{1, 0x80}, {3, 0x90}, {4, 0xA0}, {5, 0x18A0}, {6, 0xB0}}, 5},
    {"subb", 0x00, {{1, 0xC0}, {3, 0xD0}, {4, 0xE0}, {5, 0x18E0}, {6, 0xF0}}, 5},
    {"subd", 0x00, {{2, 0x83}, {3, 0x93}, {4, 0xA3}, {5, 0x18A3}, {6, 0xB3}}, 5},
    {"swi", 0x00, {{0, 0x3F}}, 1},
    {"tab", 0x00, {{0, 0x16}}, 1},
    {"tap", 0x00, {{0, 0x06}}, 1},
    {"tba", 0x00, {{0, 0x17}}, 1},
    {"test", 0x00, {{0, 0x00}}, 1},
    {"tpa", 0x00, {{0, 0x07}}, 1},
    {"tsta", 0x00, {{0, 0x4D}}, 1},
    {"tstb", 0x00, {{0, 0x5D}}, 1},
    {"tst", 0x00, {{4, 0x6D}, {5, 0x186D}, {6, 0x7D}}, 3},
    {"tsx", 0x00, {{0, 0x30}}, 1},
    {"tsy", 0x00, {{0, 0x1830}}, 1},
    {"txs", 0x00, {{0, 0x35}}, 1},
    {"tys", 0x00, {{0, 0x1835}}, 1},
    {"wai", 0x00, {{0, 0x3E}}, 1},
    {"xgdx", 0x00, {{0, 0x8F}}, 1},
    {"xgdy", 0x00, {{0, 0x188F}}, 1},
};
static const struct ins isa_6803[] = {
    {"aba", 0x00, {{0, 0x1B}}, 1},
    {"abx", 0x00, {{0, 0x3A}}, 1},
    {"adca", 0x00, {{1, 0x89}, {3, 0x99}, {4, 0xA9}, {6, 0xB9}}, 4},
    {"adcb", 0x00, {{1, 0xC9}, {3, 0xD9}, {4, 0xE9}, {6, 0xF9}}, 4},
    {"adda", 0x00, {{1, 0x8B}, {3, 0x9B}, {4, 0xAB}, {6, 0xBB}}, 4},
    {"addb", 0x00, {{1, 0xCB}, {3, 0xDB}, {4, 0xEB}, {6, 0xFB}}, 4},
    {"addd", 0x00, {{2, 0xC3}, {3, 0xD3}, {4, 0xE3}, {6, 0xF3}}, 4},
    {"anda", 0x00, {{1, 0x84}, {3, 0x94}, {4, 0xA4}, {6, 0xB4}}, 4},
    {"andb", 0x00, {{1, 0xC4}, {3, 0xD4}, {4, 0xE4}, {6, 0xF4}}, 4},
    {"bita", 0x00, {{1, 0x85}, {3, 0x95}, {4, 0xA5}, {6, 0xB5}}, 4},
    {"bitb", 0x00, {{1, 0xC5}, {3, 0xD5}, {4, 0xE5}, {6, 0xF5}}, 4},
    {"bra", 0x00, {{9, 0x20}}, 1},
    {"brn", 0x00, {{9, 0x21}}, 1},
    {"bcc", 0x00, {{9, 0x24}}, 1},
    {"bhs", 0x00, {{9, 0x24}}, 1},
    {"bcs", 0x00, {{9, 0x25}}, 1},
    {"blo", 0x00, {{9, 0x25}}, 1},
    {"beq", 0x00, {{9, 0x27}}, 1},
    {"bge", 0x00, {{9, 0x2C}}, 1},
    {"bgt", 0x00, {{9, 0x2E}}, 1},
    {"bhi", 0x00, {{9, 0x22}}, 1},
    {"ble", 0x00, {{9, 0x2F}}, 1},
    {"bls", 0x00, {{9, 0x23}}, 1},
    {"blt", 0x00, {{9, 0x2D}}, 1},
    {"bmi", 0x00, {{9, 0x2B}}, 1},
    {"bne", 0x00, {{9, 0x26}}, 1},
    {"bvc", 0x00, {{9, 0x28}}, 1},
    {"bvs", 0x00, {{9, 0x29}}, 1},
    {"bpl", 0x00, {{9, 0x2A}}, 1},
    {"bsr", 0x00, {{9, 0x8D}}, 1},
    {"clc", 0x00, {{0, 0x0C}}, 1},
    {"cli", 0x00, {{0, 0x0E}}, 1},
    {"clv", 0x00, {{0, 0x0A}}, 1},
    {"sec", 0x00, {{0, 0x0D}}, 1},
    {"sei", 0x00, {{0, 0x0F}}, 1},
    {"sev", 0x00, {{0, 0x0B}}, 1},
    {"tap", 0x00, {{0, 0x06}}, 1},
    {"tpa", 0x00, {{0, 0x07}}, 1},
    {"clr", 0x00, {{4, 0x6F}, {6, 0x7F}}, 2},
    {"clra", 0x00, {{0, 0x4F}}, 1},
    {"clrb", 0x00, {{0, 0x5F}}, 1},
    {"cmpa", 0x00, {{1, 0x81}, {3, 0x91}, {4, 0xA1}, {6, 0xB1}}, 4},
    {"cmpb", 0x00, {{1, 0xC1}, {3, 0xD1}, {4, 0xE1}, {6, 0xF1}}, 4},
    {"cba", 0x00, {{0, 0x11}}, 1},
    {"com", 0x00, {{4, 0x63}, {6, 0x73}}, 2},
    {"coma", 0x00, {{0, 0x43}}, 1},
    {"comb", 0x00, {{0, 0x53}}, 1},
    {"neg", 0x00, {{4, 0x60}, {6, 0x70}}, 2},
    {"nega", 0x00, {{0, 0x40}}, 1},
    {"negb", 0x00, {{0, 0x50}}, 1},
    {"daa", 0x00, {{0, 0x19}}, 1},
    {"dec", 0x00, {{4, 0x6A}, {6, 0x7A}}, 2},
    {"deca", 0x00, {{0, 0x4A}}, 1},
    {"decb", 0x00, {{0, 0x5A}}, 1},
    {"eora", 0x00, {{1, 0x88}, {3, 0x98}, {4, 0xA8}, {6, 0xB8}}, 4},
    {"eorb", 0x00, {{1, 0xC8}, {3, 0xD8}, {4, 0xE8}, {6, 0xF8}}, 4},
    {"inc", 0x00, {{4, 0x6C}, {6, 0x7C}}, 2},
    {"inca", 0x00, {{0, 0x4C}}, 1},
    {"incb", 0x00, {{0, 0x5C}}, 1},
    {"jmp", 0x00, {{4, 0x6E}, {6, 0x7E}}, 2},
    {"jsr", 0x00, {{3, 0x9D}, {4, 0xAD}, {6, 0xBD}}, 3},
    {"ldaa", 0x00, {{1, 0x86}, {3, 0x96}, {4, 0xA6}, {6, 0xB6}}, 4},
    {"ldab", 0x00, {{1, 0xC6}, {3, 0xD6}, {4, 0xE6}, {6, 0xF6}}, 4},
    {"ldd", 0x00, {{2, 0xCC}, {3, 0xDC}, {4, 0xEC}, {6, 0xFC}}, 4},
    {"mul", 0x00, {{0, 0x3D}}, 1},
    {"nop", 0x00, {{0, 0x01}}, 1},
    {"oraa", 0x00, {{1, 0x8A}, {3, 0x9A}, {4, 0xAA}, {6, 0xBA}}, 4},
    {"orab", 0x00, {{1, 0xCA}, {3, 0xDA}, {4, 0xEA}, {6, 0xFA}}, 4},
    {"psha", 0x00, {{0, 0x36}}, 1},
    {"pshb", 0x00, {{0, 0x37}}, 1},
    {"pshx", 0x00, {{0, 0x3C}}, 1},
    {"pulx", 0x00, {{0, 0x38}}, 1},
    {"pula", 0x00, {{0, 0x32}}, 1},
    {"pulb", 0x00, {{0, 0x33}}, 1},
    {"rol", 0x00, {{4, 0x69}, {6, 0x79}}, 2},
    {"rola", 0x00, {{0, 0x49}}, 1},
    {"rolb", 0x00, {{0, 0x59}}, 1},
    {"ror", 0x00, {{4, 0x66}, {6, 0x76}}, 2},
    {"rora", 0x00, {{0, 0x46}}, 1},
    {"rorb", 0x00, {{0, 0x56}}, 1},
    {"rti", 0x00, {{0, 0x3B}}, 1},
    {"rts", 0x00, {{0, 0x39}}, 1},
    {"swi", 0x00, {{0, 0x3F}}, 1},
    {"wai", 0x00, {{0, 0x3E}}, 1},
    {"asl", 0x00, {{4, 0x68}, {6, 0x78}}, 2},
    {"lsl", 0x00, {{4, 0x68}, {6, 0x78}}, 2},
    {"asla", 0x00, {{0, 0x48}}, 1},
    {"aslb", 0x00, {{0, 0x58}}, 1},
    {"asld", 0x00, {{0, 0x05}}, 1},
    {"lsla", 0x00, {{0, 0x48}}, 1},
    {"lslb", 0x00, {{0, 0x58}}, 1},
    {"lsld", 0x00, {{0, 0x05}}, 1},
    {"asr", 0x00, {{4, 0x67}, {6, 0x77}}, 2},
    {"asra", 0x00, {{0, 0x47}}, 1},
    {"asrb", 0x00, {{0, 0x57}}, 1},
    {"cpx", 0x00, {{2, 0x8C}, {3, 0x9C}, {4, 0xAC}, {6, 0xBC}}, 4},
    {"dex", 0x00, {{0, 0x09}}, 1},
    {"des", 0x00, {{0, 0x34}}, 1},
    {"inx", 0x00, {{0, 0x08}}, 1},
    {"ins", 0x00, {{0, 0x31}}, 1},
    {"ldx", 0x00, {{2, 0xCE}, {3, 0xDE}, {4, 0xEE}, {6, 0xFE}}, 4},
    {"lds", 0x00, {{2, 0x8E}, {3, 0x9E}, {4, 0xAE}, {6, 0xBE}}, 4},
    {"lsr", 0x00, {{4, 0x64}, {6, 0x74}}, 2},
    {"lsra", 0x00, {{0, 0x44}}, 1},
    {"lsrb", 0x00, {{0, 0x54}}, 1},
    {"lsrd", 0x00, {{0, 0x04}}, 1},
    {"staa", 0x00, {{3, 0x97}, {4, 0xA7}, {6, 0xB7}}, 3},
    {"stab", 0x00, {{3, 0xD7}, {4, 0xE7}, {6, 0xF7}}, 3},
    {"std", 0x00, {{3, 0xDD}, {4, 0xED}, {6, 0xFD}}, 3},
    {"sts", 0x00, {{3, 0x9F}, {4, 0xAF}, {6, 0xBF}}, 3},
    {"stx", 0x00, {{3, 0xDF}, {4, 0xEF}, {6, 0xFF}}, 3},
    {"suba", 0x00, {{1, 0x80}, {3, 0x90}, {4, 0xA0}, {6, 0xB0}}, 4},
    {"subb", 0x00, {{1, 0xC0}, {3, 0xD0}, {4, 0xE0}, {6, 0xF0}}, 4},
    {"subd", 0x00, {{2, 0x83}, {3, 0x93}, {4, 0xA3}, {6, 0xB3}}, 4},
    {"sba", 0x00, {{0, 0x10}}, 1},
    {"sbca", 0x00, {{1, 0x82}, {3, 0x92}, {4, 0xA2}, {6, 0xB2}}, 4},
    {"sbcb", 0x00, {{1, 0xC2}, {3, 0xD2}, {4, 0xE2}, {6, 0xF2}}, 4},
    {"tab", 0x00, {{0, 0x16}}, 1},
    {"tba", 0x00, {{0, 0x17}}, 1},
    {"tst", 0x00, {{4, 0x6D}, {6, 0x7D}}, 2},
    {"tsta", 0x00, {{0, 0x4D}}, 1},
    {"tstb", 0x00, {{0, 0x5D}}, 1},
    {"tsx", 0x00, {{0, 0x30}}, 1},
    {"txs", 0x00, {{0, 0x35}}, 1},
};
static const struct ins isa_hd6303[] = {
    {"slp", 0x00, {{0, 0x1A}}, 1},
    {"xgdx", 0x00, {{0, 0x18}}, 1},
};
static const struct ins isa_68908[] = {
    {"adc", 0x00, {{1, 0xA9}, {3, 0xB9}, {4, 0xE9}, {6, 0xC9}, {7, 0xD9}, {16, 0xF9}, {20, 0x9EE9}, {21, 0x9ED9}}, 8},
    {"add", 0x00, {{1, 0xAB}, {3, 0xBB}, {4, 0xEB}, {6, 0xCB}, {7, 0xDB}, {16, 0xFB}, {20, 0x9EEB}, {21, 0x9EDB}}, 8},
    {"ais", 0x00, {{1, 0xA7}}, 1},
    {"aix", 0x00, {{1, 0xAF}}, 1},
    {"and", 0x00, {{1, 0xA4}, {3, 0xB4}, {4, 0xE4}, {6, 0xC4}, {7, 0xD4}, {16, 0xF4}, {20, 0x9EE4}, {21, 0x9ED4}}, 8},
    {"asl", 0x00, {{3, 0x38}, {4, 0x68}, {16, 0x78}, {20, 0x9E68}}, 4},
    {"asla", 0x00, {{0, 0x48}}, 1},
    {"aslx", 0x00, {{0, 0x58}}, 1},
    {"asr", 0x00, {{3, 0x37}, {4, 0x67}, {16, 0x77}, {20, 0x9E67}}, 4},
    {"asra", 0x00, {{0, 0x47}}, 1},
    {"asrx", 0x00, {{0, 0x57}}, 1},
    {"bcc", 0x00, {{9, 0x24}}, 1},
    {"bclr", 0x40, {{18, 0x11}}, 1},
    {"bcs", 0x00, {{9, 0x25}}, 1},
    {"beq", 0x00, {{9, 0x27}}, 1},
    {"bge", 0x00, {{9, 0x90}}, 1},
    {"bgt", 0x00, {{9, 0x92}}, 1},
    {"bhcc", 0x00, {{9, 0x28}}, 1},
    {"bhcs", 0x00, {{9, 0x29}}, 1},
    {"bhi", 0x00, {{9, 0x22}}, 1},
    {"bhs", 0x00, {{9, 0x24}}, 1},
    {"bih", 0x00, {{9, 0x2F}}, 1},
    {"bil", 0x00, {{9, 0x2E}}, 1},
    {"bit", 0x00, {{1, 0xA5}, {3, 0xB5}, {4, 0xE5}, {6, 0xC5}, {7, 0xD5}, {16, 0xF5}, {20, 0x9EE5}, {21, 0x9ED5}}, 8},
    {"ble", 0x00, {{9, 0x93}}, 1},
    {"blo", 0x00, {{9, 0x25}}, 1},
    {"bls", 0x00, {{9, 0x23}}, 1},
    {"blt", 0x00, {{9, 0x91}}, 1},
    {"bmc", 0x00, {{9, 0x2C}}, 1},
    {"bmi", 0x00, {{9, 0x2B}}, 1},
    {"bms", 0x00, {{9, 0x2D}}, 1},
    {"bne", 0x00, {{9, 0x26}}, 1},
    {"bpl", 0x00, {{9, 0x2A}}, 1},
    {"bra", 0x00, {{9, 0x20}}, 1},
    {"brclr", 0x60, {{19, 0x01}}, 1},
    {"brn", 0x00, {{9, 0x21}}, 1},
    {"brset", 0x60, {{19, 0x00}}, 1},
    {"bset", 0x40, {{18, 0x10}}, 1},
    {"bsr", 0x00, {{9, 0xAD}}, 1},
    {"cbeqa", 0x10, {{9, 0x41}}, 1},
    {"cbeq", 0x20, {{3, 0x31}, {11, 0x61}, {16, 0x71}, {20, 0x9E61}}, 4},
    {"cbeqx", 0x10, {{9, 0x51}}, 1},
    {"clc", 0x00, {{0, 0x98}}, 1},
    {"cli", 0x00, {{0, 0x9A}}, 1},
    {"clr", 0x00, {{3, 0x3F}, {4, 0x6F}, {16, 0x7F}, {20, 0x9E6F}}, 4},
    {"clra", 0x00, {{0, 0x4F}}, 1},
    {"clrh", 0x00, {{0, 0x8C}}, 1},
    {"clrx", 0x00, {{0, 0x5F}}, 1},
    {"cmp", 0x00, {{1, 0xA1}, {3, 0xB1}, {4, 0xE1}, {6, 0xC1}, {7, 0xD1}, {16, 0xF1}, {20, 0x9EE1}, {21, 0x9ED1}}, 8},
    {"com", 0x00, {{3, 0x33}, {4, 0x63}, {16, 0x73}, {20, 0x9E63}}, 4},
    {"coma", 0x00, {{0, 0x43}}, 1},
    {"comx", 0x00, {{0, 0x53}}, 1},
    {"cphx", 0x00, {{2, 0x65}, {3, 0x75}}, 2},
    {"cpx", 0x00, {{1, 0xA3}, {3, 0xB3}, {4, 0xE3}, {6, 0xC3}, {7, 0xD3}, {16, 0xF3}, {20, 0x9EE3}, {21, 0x9ED3}}, 8},
    {"daa", 0x00, {{0, 0x72}}, 1},
    {"dbnz", 0x20, {{3, 0x3B}, {4, 0x6B}, {16, 0x7B}, {20, 0x9E6B}}, 4},
    {"dbnza", 0x00, {{9, 0x4B}}, 1},
    {"dbnzx", 0x00, {{9, 0x5B}}, 1},
    {"dec", 0x00, {{3, 0x3A}, {4, 0x6A}, {16, 0x7A}, {20, 0x9E6A}}, 4},
    {"deca", 0x00, {{0, 0x4A}}, 1},
    {"decx", 0x00, {{0, 0x5A}}, 1},
    {"div", 0x00, {{0, 0x52}}, 1},
    {"eor", 0x00, {{1, 0xA8}, {3, 0xB8}, {4, 0xE8}, {6, 0xC8}, {7, 0xD8}, {16, 0xF8}, {20, 0x9EE8}, {21, 0x9ED8}}, 8},
    {"inc", 0x00, {{3, 0x3C}, {4, 0x6C}, {16, 0x7C}, {20, 0x9E6C}}, 4},
    {"inca", 0x00, {{0, 0x4C}}, 1},
    {"incx", 0x00, {{0, 0x5C}}, 1},
    {"jmp", 0x00, {{3, 0xBC}, {4, 0xEC}, {6, 0xCC}, {7, 0xDC}, {16, 0xFC}}, 5},
    {"jsr", 0x00, {{3, 0xBD}, {4, 0xED}, {6, 0xCD}, {7, 0xDD}, {16, 0xFD}}, 5},
    {"lda", 0x00, {{1, 0xA6}, {3, 0xB6}, {4, 0xE6}, {6, 0xC6}, {7, 0xD6}, {16, 0xF6}, {20, 0x9EE6}, {21, 0x9ED6}}, 8},
    {"ldhx", 0x00, {{2, 0x45}, {3, 0x55}}, 2},
    {"ldx", 0x00, {{1, 0xAE}, {3, 0xBE}, {4, 0xEE}, {6, 0xCE}, {7, 0xDE}, {16, 0xFE}, {20, 0x9EEE}, {21, 0x9EDE}}, 8},
    {"lsl", 0x00, {{3, 0x38}, {4, 0x68}, {16, 0x78}, {20, 0x9E68}}, 4},
    {"lsla", 0x00, {{0, 0x48}}, 1},
    {"lslx", 0x00, {{0, 0x58}}, 1},
    {"lsr", 0x00, {{3, 0x34}, {4, 0x64}, {16, 0x74}, {20, 0x9E64}}, 4},
    {"lsra", 0x00, {{0, 0x44}}, 1},
    {"lsrx", 0x00, {{0, 0x54}}, 1},
    {"mov", 0x10, {{1, 0x6E}, {3, 0x4E}}, 2},
    {"movp", 0x00, {{4, 0x5E}}, 1},
    {"xmov", 0x00, {{3, 0x7E}}, 1},
    {"mul", 0x00, {{0, 0x42}}, 1},
    {"neg", 0x00, {{3, 0x30}, {4, 0x60}, {16, 0x70}, {20, 0x9E60}}, 4},
    {"nega", 0x00, {{0, 0x40}}, 1},
    {"negx", 0x00, {{0, 0x50}}, 1},
    {"nsa", 0x00, {{0, 0x62}}, 1},
    {"nop", 0x00, {{0, 0x9D}}, 1},
    {"ora", 0x00, {{1, 0xAA}, {3, 0xBA}, {4, 0xEA}, {6, 0xCA}, {7, 0xDA}, {16, 0xFA}, {20, 0x9EEA}, {21, 0x9EDA}}, 8},
    {"psha", 0x00, {{0, 0x87}}, 1},
    {"pshh", 0x00, {{0, 0x8B}}, 1},
    {"pshx", 0x00, {{0, 0x89}}, 1},
    {"pula", 0x00, {{0, 0x86}}, 1},
    {"pulh", 0x00, {{0, 0x8A}}, 1},
    {"pulx", 0x00, {{0, 0x88}}, 1},
    {"rol", 0x00, {{3, 0x39}, {4, 0x69}, {16, 0x79}, {20, 0x9E69}}, 4},
    {"rola", 0x00, {{0, 0x49}}, 1},
    {"rolx", 0x00, {{0, 0x59}}, 1},
    {"ror", 0x00, {{3, 0x36}, {4, 0x66}, {16, 0x76}, {20, 0x9E66}}, 4},
    {"rora", 0x00, {{0, 0x46}}, 1},
    {"rorx", 0x00, {{0, 0x56}}, 1},
    {"rsp", 0x00, {{0, 0x9C}}, 1},
    {"rti", 0x00, {{0, 0x80}}, 1},
    {"rts", 0x00, {{0, 0x81}}, 1},
    {"sbc", 0x00, {{1, 0xA2}, {3, 0xB2}, {4, 0xE2}, {6, 0xC2}, {7, 0xD2}, {16, 0xF2}, {20, 0x9EE2}, {21, 0x9ED2}}, 8},
    {"sec", 0x00, {{0, 0x99}}, 1},
    {"sei", 0x00, {{0, 0x9B}}, 1},
    {"sta", 0x00, {{3, 0xB7}, {4, 0xE7}, {6, 0xC7}, {7, 0xD7}, {16, 0xF7}, {20, 0x9EE7}, {21, 0x9ED7}}, 7},
    {"sthx", 0x00, {{3, 0x35}}, 1},
    {"stop", 0x00, {{0, 0x8E}}, 1},
    {"stx", 0x00, {{3, 0xBF}, {4, 0xEF}, {6, 0xCF}, {7, 0xDF}, {16, 0xFF}, {20, 0x9EEF}, {21, 0x9EDF}}, 7},
    {"sub", 0x00, {{1, 0xA0}, {3, 0xB0}, {4, 0xE0}, {6, 0xC0}, {7, 0xD0}, {16, 0xF0}, {20, 0x9EE0}, {21, 0x9ED0}}, 8},
    {"swi", 0x00, {{0, 0x83}}, 1},
    {"tap", 0x00, {{0, 0x84}}, 1},
    {"tax", 0x00, {{0, 0x97}}, 1},
    {"thxs", 0x00, {{0, 0x94}}, 1},
    {"tpa", 0x00, {{0, 0x85}}, 1},
    {"tshx", 0x00, {{0, 0x95}}, 1},
    {"tst", 0x00, {{3, 0x3D}, {4, 0x6D}, {16, 0x7D}, {20, 0x9E6D}}, 4},
    {"tsta", 0x00, {{0, 0x4D}}, 1},
    {"tstx", 0x00, {{0, 0x5D}}, 1},
    {"txa", 0x00, {{0, 0x9F}}, 1},
    {"wait", 0x00, {{0, 0x8F}}, 1},
};
#define COUNT(t) ((int)(sizeof(t) / sizeof((t)[0])))
