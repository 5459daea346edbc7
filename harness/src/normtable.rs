//! fzf's table of Latin letters and the ASCII letter each is normalized to.
//! Data, cross-checked against the Unicode character names when written down;
//! kept as a flat list and searched linearly-by-key, unlike the code under test.

/// The ASCII letter `c` is normalized to, or `c` itself.
pub fn base(c: char) -> char {
    if (c as u32) < 0xC0 {
        return c;
    }
    match TABLE.binary_search_by_key(&c, |e| e.0) {
        Ok(i) => TABLE[i].1,
        Err(_) => c,
    }
}

pub const TABLE: &[(char, char)] = &[
    ('\u{00C0}', 'A'), // LATIN CAPITAL LETTER A WITH GRAVE
    ('\u{00C1}', 'A'), // LATIN CAPITAL LETTER A WITH ACUTE
    ('\u{00C2}', 'A'), // LATIN CAPITAL LETTER A WITH CIRCUMFLEX
    ('\u{00C3}', 'A'), // LATIN CAPITAL LETTER A WITH TILDE
    ('\u{00C4}', 'A'), // LATIN CAPITAL LETTER A WITH DIAERESIS
    ('\u{00C5}', 'A'), // LATIN CAPITAL LETTER A WITH RING ABOVE
    ('\u{00C7}', 'C'), // LATIN CAPITAL LETTER C WITH CEDILLA
    ('\u{00C8}', 'E'), // LATIN CAPITAL LETTER E WITH GRAVE
    ('\u{00C9}', 'E'), // LATIN CAPITAL LETTER E WITH ACUTE
    ('\u{00CA}', 'E'), // LATIN CAPITAL LETTER E WITH CIRCUMFLEX
    ('\u{00CB}', 'E'), // LATIN CAPITAL LETTER E WITH DIAERESIS
    ('\u{00CC}', 'I'), // LATIN CAPITAL LETTER I WITH GRAVE
    ('\u{00CD}', 'I'), // LATIN CAPITAL LETTER I WITH ACUTE
    ('\u{00CE}', 'I'), // LATIN CAPITAL LETTER I WITH CIRCUMFLEX
    ('\u{00CF}', 'I'), // LATIN CAPITAL LETTER I WITH DIAERESIS
    ('\u{00D1}', 'N'), // LATIN CAPITAL LETTER N WITH TILDE
    ('\u{00D2}', 'O'), // LATIN CAPITAL LETTER O WITH GRAVE
    ('\u{00D3}', 'O'), // LATIN CAPITAL LETTER O WITH ACUTE
    ('\u{00D4}', 'O'), // LATIN CAPITAL LETTER O WITH CIRCUMFLEX
    ('\u{00D5}', 'O'), // LATIN CAPITAL LETTER O WITH TILDE
    ('\u{00D6}', 'O'), // LATIN CAPITAL LETTER O WITH DIAERESIS
    ('\u{00D8}', 'O'), // LATIN CAPITAL LETTER O WITH STROKE
    ('\u{00D9}', 'U'), // LATIN CAPITAL LETTER U WITH GRAVE
    ('\u{00DA}', 'U'), // LATIN CAPITAL LETTER U WITH ACUTE
    ('\u{00DB}', 'U'), // LATIN CAPITAL LETTER U WITH CIRCUMFLEX
    ('\u{00DC}', 'U'), // LATIN CAPITAL LETTER U WITH DIAERESIS
    ('\u{00DD}', 'Y'), // LATIN CAPITAL LETTER Y WITH ACUTE
    ('\u{00DF}', 's'), // LATIN SMALL LETTER SHARP S
    ('\u{00E0}', 'a'), // LATIN SMALL LETTER A WITH GRAVE
    ('\u{00E1}', 'a'), // LATIN SMALL LETTER A WITH ACUTE
    ('\u{00E2}', 'a'), // LATIN SMALL LETTER A WITH CIRCUMFLEX
    ('\u{00E3}', 'a'), // LATIN SMALL LETTER A WITH TILDE
    ('\u{00E4}', 'a'), // LATIN SMALL LETTER A WITH DIAERESIS
    ('\u{00E5}', 'a'), // LATIN SMALL LETTER A WITH RING ABOVE
    ('\u{00E7}', 'c'), // LATIN SMALL LETTER C WITH CEDILLA
    ('\u{00E8}', 'e'), // LATIN SMALL LETTER E WITH GRAVE
    ('\u{00E9}', 'e'), // LATIN SMALL LETTER E WITH ACUTE
    ('\u{00EA}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX
    ('\u{00EB}', 'e'), // LATIN SMALL LETTER E WITH DIAERESIS
    ('\u{00EC}', 'i'), // LATIN SMALL LETTER I WITH GRAVE
    ('\u{00ED}', 'i'), // LATIN SMALL LETTER I WITH ACUTE
    ('\u{00EE}', 'i'), // LATIN SMALL LETTER I WITH CIRCUMFLEX
    ('\u{00EF}', 'i'), // LATIN SMALL LETTER I WITH DIAERESIS
    ('\u{00F1}', 'n'), // LATIN SMALL LETTER N WITH TILDE
    ('\u{00F2}', 'o'), // LATIN SMALL LETTER O WITH GRAVE
    ('\u{00F3}', 'o'), // LATIN SMALL LETTER O WITH ACUTE
    ('\u{00F4}', 'o'), // LATIN SMALL LETTER O WITH CIRCUMFLEX
    ('\u{00F5}', 'o'), // LATIN SMALL LETTER O WITH TILDE
    ('\u{00F6}', 'o'), // LATIN SMALL LETTER O WITH DIAERESIS
    ('\u{00F8}', 'o'), // LATIN SMALL LETTER O WITH STROKE
    ('\u{00F9}', 'u'), // LATIN SMALL LETTER U WITH GRAVE
    ('\u{00FA}', 'u'), // LATIN SMALL LETTER U WITH ACUTE
    ('\u{00FB}', 'u'), // LATIN SMALL LETTER U WITH CIRCUMFLEX
    ('\u{00FC}', 'u'), // LATIN SMALL LETTER U WITH DIAERESIS
    ('\u{00FD}', 'y'), // LATIN SMALL LETTER Y WITH ACUTE
    ('\u{00FF}', 'y'), // LATIN SMALL LETTER Y WITH DIAERESIS
    ('\u{0101}', 'a'), // LATIN SMALL LETTER A WITH MACRON
    ('\u{0103}', 'a'), // LATIN SMALL LETTER A WITH BREVE
    ('\u{0105}', 'a'), // LATIN SMALL LETTER A WITH OGONEK
    ('\u{0107}', 'c'), // LATIN SMALL LETTER C WITH ACUTE
    ('\u{0109}', 'c'), // LATIN SMALL LETTER C WITH CIRCUMFLEX
    ('\u{010B}', 'c'), // LATIN SMALL LETTER C WITH DOT ABOVE
    ('\u{010D}', 'c'), // LATIN SMALL LETTER C WITH CARON
    ('\u{010F}', 'd'), // LATIN SMALL LETTER D WITH CARON
    ('\u{0111}', 'd'), // LATIN SMALL LETTER D WITH STROKE
    ('\u{0113}', 'e'), // LATIN SMALL LETTER E WITH MACRON
    ('\u{0115}', 'e'), // LATIN SMALL LETTER E WITH BREVE
    ('\u{0117}', 'e'), // LATIN SMALL LETTER E WITH DOT ABOVE
    ('\u{0119}', 'e'), // LATIN SMALL LETTER E WITH OGONEK
    ('\u{011B}', 'e'), // LATIN SMALL LETTER E WITH CARON
    ('\u{011D}', 'g'), // LATIN SMALL LETTER G WITH CIRCUMFLEX
    ('\u{011F}', 'g'), // LATIN SMALL LETTER G WITH BREVE
    ('\u{0121}', 'g'), // LATIN SMALL LETTER G WITH DOT ABOVE
    ('\u{0123}', 'g'), // LATIN SMALL LETTER G WITH CEDILLA
    ('\u{0125}', 'h'), // LATIN SMALL LETTER H WITH CIRCUMFLEX
    ('\u{0127}', 'h'), // LATIN SMALL LETTER H WITH STROKE
    ('\u{0129}', 'i'), // LATIN SMALL LETTER I WITH TILDE
    ('\u{012B}', 'i'), // LATIN SMALL LETTER I WITH MACRON
    ('\u{012D}', 'i'), // LATIN SMALL LETTER I WITH BREVE
    ('\u{012F}', 'i'), // LATIN SMALL LETTER I WITH OGONEK
    ('\u{0130}', 'I'), // LATIN CAPITAL LETTER I WITH DOT ABOVE
    ('\u{0131}', 'i'), // LATIN SMALL LETTER DOTLESS I
    ('\u{0135}', 'j'), // LATIN SMALL LETTER J WITH CIRCUMFLEX
    ('\u{0137}', 'k'), // LATIN SMALL LETTER K WITH CEDILLA
    ('\u{013A}', 'l'), // LATIN SMALL LETTER L WITH ACUTE
    ('\u{013C}', 'l'), // LATIN SMALL LETTER L WITH CEDILLA
    ('\u{013E}', 'l'), // LATIN SMALL LETTER L WITH CARON
    ('\u{0140}', 'l'), // LATIN SMALL LETTER L WITH MIDDLE DOT
    ('\u{0142}', 'l'), // LATIN SMALL LETTER L WITH STROKE
    ('\u{0144}', 'n'), // LATIN SMALL LETTER N WITH ACUTE
    ('\u{0146}', 'n'), // LATIN SMALL LETTER N WITH CEDILLA
    ('\u{0148}', 'n'), // LATIN SMALL LETTER N WITH CARON
    ('\u{014D}', 'o'), // LATIN SMALL LETTER O WITH MACRON
    ('\u{014F}', 'o'), // LATIN SMALL LETTER O WITH BREVE
    ('\u{0151}', 'o'), // LATIN SMALL LETTER O WITH DOUBLE ACUTE
    ('\u{0155}', 'r'), // LATIN SMALL LETTER R WITH ACUTE
    ('\u{0157}', 'r'), // LATIN SMALL LETTER R WITH CEDILLA
    ('\u{0159}', 'r'), // LATIN SMALL LETTER R WITH CARON
    ('\u{015B}', 's'), // LATIN SMALL LETTER S WITH ACUTE
    ('\u{015D}', 's'), // LATIN SMALL LETTER S WITH CIRCUMFLEX
    ('\u{015F}', 's'), // LATIN SMALL LETTER S WITH CEDILLA
    ('\u{0161}', 's'), // LATIN SMALL LETTER S WITH CARON
    ('\u{0163}', 't'), // LATIN SMALL LETTER T WITH CEDILLA
    ('\u{0165}', 't'), // LATIN SMALL LETTER T WITH CARON
    ('\u{0167}', 't'), // LATIN SMALL LETTER T WITH STROKE
    ('\u{0169}', 'u'), // LATIN SMALL LETTER U WITH TILDE
    ('\u{016B}', 'u'), // LATIN SMALL LETTER U WITH MACRON
    ('\u{016D}', 'u'), // LATIN SMALL LETTER U WITH BREVE
    ('\u{016F}', 'u'), // LATIN SMALL LETTER U WITH RING ABOVE
    ('\u{0171}', 'u'), // LATIN SMALL LETTER U WITH DOUBLE ACUTE
    ('\u{0173}', 'u'), // LATIN SMALL LETTER U WITH OGONEK
    ('\u{0175}', 'w'), // LATIN SMALL LETTER W WITH CIRCUMFLEX
    ('\u{0177}', 'y'), // LATIN SMALL LETTER Y WITH CIRCUMFLEX
    ('\u{0178}', 'Y'), // LATIN CAPITAL LETTER Y WITH DIAERESIS
    ('\u{017A}', 'z'), // LATIN SMALL LETTER Z WITH ACUTE
    ('\u{017C}', 'z'), // LATIN SMALL LETTER Z WITH DOT ABOVE
    ('\u{017E}', 'z'), // LATIN SMALL LETTER Z WITH CARON
    ('\u{017F}', 's'), // LATIN SMALL LETTER LONG S
    ('\u{0180}', 'b'), // LATIN SMALL LETTER B WITH STROKE
    ('\u{0181}', 'B'), // LATIN CAPITAL LETTER B WITH HOOK
    ('\u{0183}', 'b'), // LATIN SMALL LETTER B WITH TOPBAR
    ('\u{0186}', 'O'), // LATIN CAPITAL LETTER OPEN O
    ('\u{0188}', 'c'), // LATIN SMALL LETTER C WITH HOOK
    ('\u{0189}', 'D'), // LATIN CAPITAL LETTER AFRICAN D
    ('\u{018A}', 'D'), // LATIN CAPITAL LETTER D WITH HOOK
    ('\u{018C}', 'd'), // LATIN SMALL LETTER D WITH TOPBAR
    ('\u{018E}', 'E'), // LATIN CAPITAL LETTER REVERSED E
    ('\u{0190}', 'E'), // LATIN CAPITAL LETTER OPEN E
    ('\u{0192}', 'f'), // LATIN SMALL LETTER F WITH HOOK
    ('\u{0193}', 'G'), // LATIN CAPITAL LETTER G WITH HOOK
    ('\u{0197}', 'I'), // LATIN CAPITAL LETTER I WITH STROKE
    ('\u{0199}', 'k'), // LATIN SMALL LETTER K WITH HOOK
    ('\u{019A}', 'l'), // LATIN SMALL LETTER L WITH BAR
    ('\u{019C}', 'M'), // LATIN CAPITAL LETTER TURNED M
    ('\u{019D}', 'N'), // LATIN CAPITAL LETTER N WITH LEFT HOOK
    ('\u{019E}', 'n'), // LATIN SMALL LETTER N WITH LONG RIGHT LEG
    ('\u{019F}', 'O'), // LATIN CAPITAL LETTER O WITH MIDDLE TILDE
    ('\u{01A1}', 'o'), // LATIN SMALL LETTER O WITH HORN
    ('\u{01A5}', 'p'), // LATIN SMALL LETTER P WITH HOOK
    ('\u{01AB}', 't'), // LATIN SMALL LETTER T WITH PALATAL HOOK
    ('\u{01AD}', 't'), // LATIN SMALL LETTER T WITH HOOK
    ('\u{01AE}', 'T'), // LATIN CAPITAL LETTER T WITH RETROFLEX HOOK
    ('\u{01B0}', 'u'), // LATIN SMALL LETTER U WITH HORN
    ('\u{01B2}', 'V'), // LATIN CAPITAL LETTER V WITH HOOK
    ('\u{01B4}', 'y'), // LATIN SMALL LETTER Y WITH HOOK
    ('\u{01B6}', 'z'), // LATIN SMALL LETTER Z WITH STROKE
    ('\u{01CE}', 'a'), // LATIN SMALL LETTER A WITH CARON
    ('\u{01D0}', 'i'), // LATIN SMALL LETTER I WITH CARON
    ('\u{01D2}', 'o'), // LATIN SMALL LETTER O WITH CARON
    ('\u{01D4}', 'u'), // LATIN SMALL LETTER U WITH CARON
    ('\u{01DD}', 'e'), // LATIN SMALL LETTER TURNED E
    ('\u{01E5}', 'g'), // LATIN SMALL LETTER G WITH STROKE
    ('\u{01E7}', 'g'), // LATIN SMALL LETTER G WITH CARON
    ('\u{01E9}', 'k'), // LATIN SMALL LETTER K WITH CARON
    ('\u{01EB}', 'o'), // LATIN SMALL LETTER O WITH OGONEK
    ('\u{01F0}', 'j'), // LATIN SMALL LETTER J WITH CARON
    ('\u{01F5}', 'g'), // LATIN SMALL LETTER G WITH ACUTE
    ('\u{01F9}', 'n'), // LATIN SMALL LETTER N WITH GRAVE
    ('\u{0201}', 'a'), // LATIN SMALL LETTER A WITH DOUBLE GRAVE
    ('\u{0203}', 'a'), // LATIN SMALL LETTER A WITH INVERTED BREVE
    ('\u{0205}', 'e'), // LATIN SMALL LETTER E WITH DOUBLE GRAVE
    ('\u{0207}', 'e'), // LATIN SMALL LETTER E WITH INVERTED BREVE
    ('\u{0209}', 'i'), // LATIN SMALL LETTER I WITH DOUBLE GRAVE
    ('\u{020B}', 'i'), // LATIN SMALL LETTER I WITH INVERTED BREVE
    ('\u{020D}', 'o'), // LATIN SMALL LETTER O WITH DOUBLE GRAVE
    ('\u{020F}', 'o'), // LATIN SMALL LETTER O WITH INVERTED BREVE
    ('\u{0211}', 'r'), // LATIN SMALL LETTER R WITH DOUBLE GRAVE
    ('\u{0213}', 'r'), // LATIN SMALL LETTER R WITH INVERTED BREVE
    ('\u{0215}', 'u'), // LATIN SMALL LETTER U WITH DOUBLE GRAVE
    ('\u{0217}', 'u'), // LATIN SMALL LETTER U WITH INVERTED BREVE
    ('\u{0219}', 's'), // LATIN SMALL LETTER S WITH COMMA BELOW
    ('\u{021B}', 't'), // LATIN SMALL LETTER T WITH COMMA BELOW
    ('\u{021F}', 'h'), // LATIN SMALL LETTER H WITH CARON
    ('\u{0220}', 'N'), // LATIN CAPITAL LETTER N WITH LONG RIGHT LEG
    ('\u{0221}', 'd'), // LATIN SMALL LETTER D WITH CURL
    ('\u{0225}', 'z'), // LATIN SMALL LETTER Z WITH HOOK
    ('\u{0227}', 'a'), // LATIN SMALL LETTER A WITH DOT ABOVE
    ('\u{0229}', 'e'), // LATIN SMALL LETTER E WITH CEDILLA
    ('\u{022F}', 'o'), // LATIN SMALL LETTER O WITH DOT ABOVE
    ('\u{0233}', 'y'), // LATIN SMALL LETTER Y WITH MACRON
    ('\u{0234}', 'l'), // LATIN SMALL LETTER L WITH CURL
    ('\u{0235}', 'n'), // LATIN SMALL LETTER N WITH CURL
    ('\u{0236}', 't'), // LATIN SMALL LETTER T WITH CURL
    ('\u{0237}', 'j'), // LATIN SMALL LETTER DOTLESS J
    ('\u{023A}', 'A'), // LATIN CAPITAL LETTER A WITH STROKE
    ('\u{023B}', 'C'), // LATIN CAPITAL LETTER C WITH STROKE
    ('\u{023C}', 'c'), // LATIN SMALL LETTER C WITH STROKE
    ('\u{023D}', 'L'), // LATIN CAPITAL LETTER L WITH BAR
    ('\u{023E}', 'T'), // LATIN CAPITAL LETTER T WITH DIAGONAL STROKE
    ('\u{023F}', 's'), // LATIN SMALL LETTER S WITH SWASH TAIL
    ('\u{0240}', 'z'), // LATIN SMALL LETTER Z WITH SWASH TAIL
    ('\u{0243}', 'B'), // LATIN CAPITAL LETTER B WITH STROKE
    ('\u{0244}', 'U'), // LATIN CAPITAL LETTER U BAR
    ('\u{0245}', 'V'), // LATIN CAPITAL LETTER TURNED V
    ('\u{0246}', 'E'), // LATIN CAPITAL LETTER E WITH STROKE
    ('\u{0247}', 'e'), // LATIN SMALL LETTER E WITH STROKE
    ('\u{0248}', 'J'), // LATIN CAPITAL LETTER J WITH STROKE
    ('\u{0249}', 'j'), // LATIN SMALL LETTER J WITH STROKE
    ('\u{024A}', 'Q'), // LATIN CAPITAL LETTER SMALL Q WITH HOOK TAIL
    ('\u{024B}', 'q'), // LATIN SMALL LETTER Q WITH HOOK TAIL
    ('\u{024C}', 'R'), // LATIN CAPITAL LETTER R WITH STROKE
    ('\u{024D}', 'r'), // LATIN SMALL LETTER R WITH STROKE
    ('\u{024E}', 'Y'), // LATIN CAPITAL LETTER Y WITH STROKE
    ('\u{024F}', 'y'), // LATIN SMALL LETTER Y WITH STROKE
    ('\u{0250}', 'a'), // LATIN SMALL LETTER TURNED A
    ('\u{0251}', 'a'), // LATIN SMALL LETTER ALPHA
    ('\u{0253}', 'b'), // LATIN SMALL LETTER B WITH HOOK
    ('\u{0254}', 'o'), // LATIN SMALL LETTER OPEN O
    ('\u{0255}', 'c'), // LATIN SMALL LETTER C WITH CURL
    ('\u{0256}', 'd'), // LATIN SMALL LETTER D WITH TAIL
    ('\u{0257}', 'd'), // LATIN SMALL LETTER D WITH HOOK
    ('\u{0258}', 'e'), // LATIN SMALL LETTER REVERSED E
    ('\u{025B}', 'e'), // LATIN SMALL LETTER OPEN E
    ('\u{025C}', 'e'), // LATIN SMALL LETTER REVERSED OPEN E
    ('\u{025D}', 'e'), // LATIN SMALL LETTER REVERSED OPEN E WITH HOOK
    ('\u{025E}', 'e'), // LATIN SMALL LETTER CLOSED REVERSED OPEN E
    ('\u{025F}', 'j'), // LATIN SMALL LETTER DOTLESS J WITH STROKE
    ('\u{0260}', 'g'), // LATIN SMALL LETTER G WITH HOOK
    ('\u{0261}', 'g'), // LATIN SMALL LETTER SCRIPT G
    ('\u{0262}', 'G'), // LATIN LETTER SMALL CAPITAL G
    ('\u{0265}', 'h'), // LATIN SMALL LETTER TURNED H
    ('\u{0266}', 'h'), // LATIN SMALL LETTER H WITH HOOK
    ('\u{0268}', 'i'), // LATIN SMALL LETTER I WITH STROKE
    ('\u{026A}', 'I'), // LATIN LETTER SMALL CAPITAL I
    ('\u{026B}', 'l'), // LATIN SMALL LETTER L WITH MIDDLE TILDE
    ('\u{026C}', 'l'), // LATIN SMALL LETTER L WITH BELT
    ('\u{026D}', 'l'), // LATIN SMALL LETTER L WITH RETROFLEX HOOK
    ('\u{026F}', 'm'), // LATIN SMALL LETTER TURNED M
    ('\u{0270}', 'm'), // LATIN SMALL LETTER TURNED M WITH LONG LEG
    ('\u{0271}', 'm'), // LATIN SMALL LETTER M WITH HOOK
    ('\u{0272}', 'n'), // LATIN SMALL LETTER N WITH LEFT HOOK
    ('\u{0273}', 'n'), // LATIN SMALL LETTER N WITH RETROFLEX HOOK
    ('\u{0274}', 'N'), // LATIN LETTER SMALL CAPITAL N
    ('\u{0275}', 'o'), // LATIN SMALL LETTER BARRED O
    ('\u{0279}', 'r'), // LATIN SMALL LETTER TURNED R
    ('\u{027A}', 'r'), // LATIN SMALL LETTER TURNED R WITH LONG LEG
    ('\u{027B}', 'r'), // LATIN SMALL LETTER TURNED R WITH HOOK
    ('\u{027C}', 'r'), // LATIN SMALL LETTER R WITH LONG LEG
    ('\u{027D}', 'r'), // LATIN SMALL LETTER R WITH TAIL
    ('\u{027E}', 'r'), // LATIN SMALL LETTER R WITH FISHHOOK
    ('\u{027F}', 'r'), // LATIN SMALL LETTER REVERSED R WITH FISHHOOK
    ('\u{0280}', 'R'), // LATIN LETTER SMALL CAPITAL R
    ('\u{0281}', 'R'), // LATIN LETTER SMALL CAPITAL INVERTED R
    ('\u{0282}', 's'), // LATIN SMALL LETTER S WITH HOOK
    ('\u{0287}', 't'), // LATIN SMALL LETTER TURNED T
    ('\u{0288}', 't'), // LATIN SMALL LETTER T WITH RETROFLEX HOOK
    ('\u{0289}', 'u'), // LATIN SMALL LETTER U BAR
    ('\u{028B}', 'v'), // LATIN SMALL LETTER V WITH HOOK
    ('\u{028C}', 'v'), // LATIN SMALL LETTER TURNED V
    ('\u{028D}', 'w'), // LATIN SMALL LETTER TURNED W
    ('\u{028E}', 'y'), // LATIN SMALL LETTER TURNED Y
    ('\u{028F}', 'Y'), // LATIN LETTER SMALL CAPITAL Y
    ('\u{0290}', 'z'), // LATIN SMALL LETTER Z WITH RETROFLEX HOOK
    ('\u{0291}', 'z'), // LATIN SMALL LETTER Z WITH CURL
    ('\u{0297}', 'c'), // LATIN LETTER STRETCHED C
    ('\u{0299}', 'B'), // LATIN LETTER SMALL CAPITAL B
    ('\u{029A}', 'e'), // LATIN SMALL LETTER CLOSED OPEN E
    ('\u{029B}', 'G'), // LATIN LETTER SMALL CAPITAL G WITH HOOK
    ('\u{029C}', 'H'), // LATIN LETTER SMALL CAPITAL H
    ('\u{029D}', 'j'), // LATIN SMALL LETTER J WITH CROSSED-TAIL
    ('\u{029E}', 'k'), // LATIN SMALL LETTER TURNED K
    ('\u{029F}', 'L'), // LATIN LETTER SMALL CAPITAL L
    ('\u{02A0}', 'q'), // LATIN SMALL LETTER Q WITH HOOK
    ('\u{02AE}', 'h'), // LATIN SMALL LETTER TURNED H WITH FISHHOOK
    ('\u{0363}', 'a'), // COMBINING LATIN SMALL LETTER A
    ('\u{0364}', 'e'), // COMBINING LATIN SMALL LETTER E
    ('\u{0365}', 'i'), // COMBINING LATIN SMALL LETTER I
    ('\u{0366}', 'o'), // COMBINING LATIN SMALL LETTER O
    ('\u{0367}', 'u'), // COMBINING LATIN SMALL LETTER U
    ('\u{0368}', 'c'), // COMBINING LATIN SMALL LETTER C
    ('\u{0369}', 'd'), // COMBINING LATIN SMALL LETTER D
    ('\u{036A}', 'h'), // COMBINING LATIN SMALL LETTER H
    ('\u{036B}', 'm'), // COMBINING LATIN SMALL LETTER M
    ('\u{036C}', 'r'), // COMBINING LATIN SMALL LETTER R
    ('\u{036D}', 't'), // COMBINING LATIN SMALL LETTER T
    ('\u{036E}', 'v'), // COMBINING LATIN SMALL LETTER V
    ('\u{036F}', 'x'), // COMBINING LATIN SMALL LETTER X
    ('\u{1D00}', 'A'), // LATIN LETTER SMALL CAPITAL A
    ('\u{1D03}', 'B'), // LATIN LETTER SMALL CAPITAL BARRED B
    ('\u{1D04}', 'C'), // LATIN LETTER SMALL CAPITAL C
    ('\u{1D05}', 'D'), // LATIN LETTER SMALL CAPITAL D
    ('\u{1D07}', 'E'), // LATIN LETTER SMALL CAPITAL E
    ('\u{1D08}', 'e'), // LATIN SMALL LETTER TURNED OPEN E
    ('\u{1D09}', 'i'), // LATIN SMALL LETTER TURNED I
    ('\u{1D0A}', 'J'), // LATIN LETTER SMALL CAPITAL J
    ('\u{1D0B}', 'K'), // LATIN LETTER SMALL CAPITAL K
    ('\u{1D0C}', 'L'), // LATIN LETTER SMALL CAPITAL L WITH STROKE
    ('\u{1D0D}', 'M'), // LATIN LETTER SMALL CAPITAL M
    ('\u{1D0E}', 'N'), // LATIN LETTER SMALL CAPITAL REVERSED N
    ('\u{1D0F}', 'O'), // LATIN LETTER SMALL CAPITAL O
    ('\u{1D10}', 'O'), // LATIN LETTER SMALL CAPITAL OPEN O
    ('\u{1D11}', 'o'), // LATIN SMALL LETTER SIDEWAYS O
    ('\u{1D12}', 'o'), // LATIN SMALL LETTER SIDEWAYS OPEN O
    ('\u{1D13}', 'o'), // LATIN SMALL LETTER SIDEWAYS O WITH STROKE
    ('\u{1D16}', 'o'), // LATIN SMALL LETTER TOP HALF O
    ('\u{1D17}', 'o'), // LATIN SMALL LETTER BOTTOM HALF O
    ('\u{1D18}', 'P'), // LATIN LETTER SMALL CAPITAL P
    ('\u{1D19}', 'R'), // LATIN LETTER SMALL CAPITAL REVERSED R
    ('\u{1D1A}', 'R'), // LATIN LETTER SMALL CAPITAL TURNED R
    ('\u{1D1B}', 'T'), // LATIN LETTER SMALL CAPITAL T
    ('\u{1D1C}', 'U'), // LATIN LETTER SMALL CAPITAL U
    ('\u{1D1D}', 'u'), // LATIN SMALL LETTER SIDEWAYS U
    ('\u{1D1E}', 'u'), // LATIN SMALL LETTER SIDEWAYS DIAERESIZED U
    ('\u{1D1F}', 'm'), // LATIN SMALL LETTER SIDEWAYS TURNED M
    ('\u{1D20}', 'V'), // LATIN LETTER SMALL CAPITAL V
    ('\u{1D21}', 'W'), // LATIN LETTER SMALL CAPITAL W
    ('\u{1D22}', 'Z'), // LATIN LETTER SMALL CAPITAL Z
    ('\u{1D62}', 'i'), // LATIN SUBSCRIPT SMALL LETTER I
    ('\u{1D63}', 'r'), // LATIN SUBSCRIPT SMALL LETTER R
    ('\u{1D64}', 'u'), // LATIN SUBSCRIPT SMALL LETTER U
    ('\u{1D65}', 'v'), // LATIN SUBSCRIPT SMALL LETTER V
    ('\u{1E01}', 'a'), // LATIN SMALL LETTER A WITH RING BELOW
    ('\u{1E03}', 'b'), // LATIN SMALL LETTER B WITH DOT ABOVE
    ('\u{1E05}', 'b'), // LATIN SMALL LETTER B WITH DOT BELOW
    ('\u{1E07}', 'b'), // LATIN SMALL LETTER B WITH LINE BELOW
    ('\u{1E0B}', 'd'), // LATIN SMALL LETTER D WITH DOT ABOVE
    ('\u{1E0D}', 'd'), // LATIN SMALL LETTER D WITH DOT BELOW
    ('\u{1E0F}', 'd'), // LATIN SMALL LETTER D WITH LINE BELOW
    ('\u{1E11}', 'd'), // LATIN SMALL LETTER D WITH CEDILLA
    ('\u{1E13}', 'd'), // LATIN SMALL LETTER D WITH CIRCUMFLEX BELOW
    ('\u{1E19}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX BELOW
    ('\u{1E1B}', 'e'), // LATIN SMALL LETTER E WITH TILDE BELOW
    ('\u{1E1F}', 'f'), // LATIN SMALL LETTER F WITH DOT ABOVE
    ('\u{1E21}', 'g'), // LATIN SMALL LETTER G WITH MACRON
    ('\u{1E23}', 'h'), // LATIN SMALL LETTER H WITH DOT ABOVE
    ('\u{1E25}', 'h'), // LATIN SMALL LETTER H WITH DOT BELOW
    ('\u{1E27}', 'h'), // LATIN SMALL LETTER H WITH DIAERESIS
    ('\u{1E29}', 'h'), // LATIN SMALL LETTER H WITH CEDILLA
    ('\u{1E2B}', 'h'), // LATIN SMALL LETTER H WITH BREVE BELOW
    ('\u{1E2D}', 'i'), // LATIN SMALL LETTER I WITH TILDE BELOW
    ('\u{1E31}', 'k'), // LATIN SMALL LETTER K WITH ACUTE
    ('\u{1E33}', 'k'), // LATIN SMALL LETTER K WITH DOT BELOW
    ('\u{1E35}', 'k'), // LATIN SMALL LETTER K WITH LINE BELOW
    ('\u{1E37}', 'l'), // LATIN SMALL LETTER L WITH DOT BELOW
    ('\u{1E3B}', 'l'), // LATIN SMALL LETTER L WITH LINE BELOW
    ('\u{1E3D}', 'l'), // LATIN SMALL LETTER L WITH CIRCUMFLEX BELOW
    ('\u{1E3F}', 'm'), // LATIN SMALL LETTER M WITH ACUTE
    ('\u{1E41}', 'm'), // LATIN SMALL LETTER M WITH DOT ABOVE
    ('\u{1E43}', 'm'), // LATIN SMALL LETTER M WITH DOT BELOW
    ('\u{1E45}', 'n'), // LATIN SMALL LETTER N WITH DOT ABOVE
    ('\u{1E47}', 'n'), // LATIN SMALL LETTER N WITH DOT BELOW
    ('\u{1E49}', 'n'), // LATIN SMALL LETTER N WITH LINE BELOW
    ('\u{1E4B}', 'n'), // LATIN SMALL LETTER N WITH CIRCUMFLEX BELOW
    ('\u{1E55}', 'p'), // LATIN SMALL LETTER P WITH ACUTE
    ('\u{1E57}', 'p'), // LATIN SMALL LETTER P WITH DOT ABOVE
    ('\u{1E59}', 'r'), // LATIN SMALL LETTER R WITH DOT ABOVE
    ('\u{1E5B}', 'r'), // LATIN SMALL LETTER R WITH DOT BELOW
    ('\u{1E5F}', 'r'), // LATIN SMALL LETTER R WITH LINE BELOW
    ('\u{1E61}', 's'), // LATIN SMALL LETTER S WITH DOT ABOVE
    ('\u{1E63}', 's'), // LATIN SMALL LETTER S WITH DOT BELOW
    ('\u{1E6B}', 't'), // LATIN SMALL LETTER T WITH DOT ABOVE
    ('\u{1E6D}', 't'), // LATIN SMALL LETTER T WITH DOT BELOW
    ('\u{1E6F}', 't'), // LATIN SMALL LETTER T WITH LINE BELOW
    ('\u{1E71}', 't'), // LATIN SMALL LETTER T WITH CIRCUMFLEX BELOW
    ('\u{1E73}', 'u'), // LATIN SMALL LETTER U WITH DIAERESIS BELOW
    ('\u{1E75}', 'u'), // LATIN SMALL LETTER U WITH TILDE BELOW
    ('\u{1E77}', 'u'), // LATIN SMALL LETTER U WITH CIRCUMFLEX BELOW
    ('\u{1E7D}', 'v'), // LATIN SMALL LETTER V WITH TILDE
    ('\u{1E7F}', 'v'), // LATIN SMALL LETTER V WITH DOT BELOW
    ('\u{1E81}', 'w'), // LATIN SMALL LETTER W WITH GRAVE
    ('\u{1E83}', 'w'), // LATIN SMALL LETTER W WITH ACUTE
    ('\u{1E85}', 'w'), // LATIN SMALL LETTER W WITH DIAERESIS
    ('\u{1E87}', 'w'), // LATIN SMALL LETTER W WITH DOT ABOVE
    ('\u{1E89}', 'w'), // LATIN SMALL LETTER W WITH DOT BELOW
    ('\u{1E8B}', 'x'), // LATIN SMALL LETTER X WITH DOT ABOVE
    ('\u{1E8D}', 'x'), // LATIN SMALL LETTER X WITH DIAERESIS
    ('\u{1E8F}', 'y'), // LATIN SMALL LETTER Y WITH DOT ABOVE
    ('\u{1E91}', 'z'), // LATIN SMALL LETTER Z WITH CIRCUMFLEX
    ('\u{1E93}', 'z'), // LATIN SMALL LETTER Z WITH DOT BELOW
    ('\u{1E95}', 'z'), // LATIN SMALL LETTER Z WITH LINE BELOW
    ('\u{1E96}', 'h'), // LATIN SMALL LETTER H WITH LINE BELOW
    ('\u{1E97}', 't'), // LATIN SMALL LETTER T WITH DIAERESIS
    ('\u{1E98}', 'w'), // LATIN SMALL LETTER W WITH RING ABOVE
    ('\u{1E99}', 'y'), // LATIN SMALL LETTER Y WITH RING ABOVE
    ('\u{1E9A}', 'a'), // LATIN SMALL LETTER A WITH RIGHT HALF RING
    ('\u{1E9B}', 's'), // LATIN SMALL LETTER LONG S WITH DOT ABOVE
    ('\u{1EA1}', 'a'), // LATIN SMALL LETTER A WITH DOT BELOW
    ('\u{1EA3}', 'a'), // LATIN SMALL LETTER A WITH HOOK ABOVE
    ('\u{1EA4}', 'A'), // LATIN CAPITAL LETTER A WITH CIRCUMFLEX AND ACUTE
    ('\u{1EA5}', 'a'), // LATIN SMALL LETTER A WITH CIRCUMFLEX AND ACUTE
    ('\u{1EA6}', 'A'), // LATIN CAPITAL LETTER A WITH CIRCUMFLEX AND GRAVE
    ('\u{1EA7}', 'a'), // LATIN SMALL LETTER A WITH CIRCUMFLEX AND GRAVE
    ('\u{1EA8}', 'A'), // LATIN CAPITAL LETTER A WITH CIRCUMFLEX AND HOOK ABOVE
    ('\u{1EA9}', 'a'), // LATIN SMALL LETTER A WITH CIRCUMFLEX AND HOOK ABOVE
    ('\u{1EAA}', 'A'), // LATIN CAPITAL LETTER A WITH CIRCUMFLEX AND TILDE
    ('\u{1EAB}', 'a'), // LATIN SMALL LETTER A WITH CIRCUMFLEX AND TILDE
    ('\u{1EAC}', 'A'), // LATIN CAPITAL LETTER A WITH CIRCUMFLEX AND DOT BELOW
    ('\u{1EAD}', 'a'), // LATIN SMALL LETTER A WITH CIRCUMFLEX AND DOT BELOW
    ('\u{1EAE}', 'A'), // LATIN CAPITAL LETTER A WITH BREVE AND ACUTE
    ('\u{1EAF}', 'a'), // LATIN SMALL LETTER A WITH BREVE AND ACUTE
    ('\u{1EB0}', 'A'), // LATIN CAPITAL LETTER A WITH BREVE AND GRAVE
    ('\u{1EB1}', 'a'), // LATIN SMALL LETTER A WITH BREVE AND GRAVE
    ('\u{1EB2}', 'A'), // LATIN CAPITAL LETTER A WITH BREVE AND HOOK ABOVE
    ('\u{1EB3}', 'a'), // LATIN SMALL LETTER A WITH BREVE AND HOOK ABOVE
    ('\u{1EB4}', 'A'), // LATIN CAPITAL LETTER A WITH BREVE AND TILDE
    ('\u{1EB5}', 'a'), // LATIN SMALL LETTER A WITH BREVE AND TILDE
    ('\u{1EB6}', 'A'), // LATIN CAPITAL LETTER A WITH BREVE AND DOT BELOW
    ('\u{1EB7}', 'a'), // LATIN SMALL LETTER A WITH BREVE AND DOT BELOW
    ('\u{1EB9}', 'e'), // LATIN SMALL LETTER E WITH DOT BELOW
    ('\u{1EBB}', 'e'), // LATIN SMALL LETTER E WITH HOOK ABOVE
    ('\u{1EBD}', 'e'), // LATIN SMALL LETTER E WITH TILDE
    ('\u{1EBE}', 'E'), // LATIN CAPITAL LETTER E WITH CIRCUMFLEX AND ACUTE
    ('\u{1EBF}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX AND ACUTE
    ('\u{1EC0}', 'E'), // LATIN CAPITAL LETTER E WITH CIRCUMFLEX AND GRAVE
    ('\u{1EC1}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX AND GRAVE
    ('\u{1EC2}', 'E'), // LATIN CAPITAL LETTER E WITH CIRCUMFLEX AND HOOK ABOVE
    ('\u{1EC3}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX AND HOOK ABOVE
    ('\u{1EC4}', 'E'), // LATIN CAPITAL LETTER E WITH CIRCUMFLEX AND TILDE
    ('\u{1EC5}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX AND TILDE
    ('\u{1EC6}', 'E'), // LATIN CAPITAL LETTER E WITH CIRCUMFLEX AND DOT BELOW
    ('\u{1EC7}', 'e'), // LATIN SMALL LETTER E WITH CIRCUMFLEX AND DOT BELOW
    ('\u{1EC9}', 'i'), // LATIN SMALL LETTER I WITH HOOK ABOVE
    ('\u{1ECB}', 'i'), // LATIN SMALL LETTER I WITH DOT BELOW
    ('\u{1ECD}', 'o'), // LATIN SMALL LETTER O WITH DOT BELOW
    ('\u{1ECF}', 'o'), // LATIN SMALL LETTER O WITH HOOK ABOVE
    ('\u{1ED0}', 'O'), // LATIN CAPITAL LETTER O WITH CIRCUMFLEX AND ACUTE
    ('\u{1ED1}', 'o'), // LATIN SMALL LETTER O WITH CIRCUMFLEX AND ACUTE
    ('\u{1ED2}', 'O'), // LATIN CAPITAL LETTER O WITH CIRCUMFLEX AND GRAVE
    ('\u{1ED3}', 'o'), // LATIN SMALL LETTER O WITH CIRCUMFLEX AND GRAVE
    ('\u{1ED4}', 'O'), // LATIN CAPITAL LETTER O WITH CIRCUMFLEX AND HOOK ABOVE
    ('\u{1ED5}', 'o'), // LATIN SMALL LETTER O WITH CIRCUMFLEX AND HOOK ABOVE
    ('\u{1ED6}', 'O'), // LATIN CAPITAL LETTER O WITH CIRCUMFLEX AND TILDE
    ('\u{1ED7}', 'o'), // LATIN SMALL LETTER O WITH CIRCUMFLEX AND TILDE
    ('\u{1ED8}', 'O'), // LATIN CAPITAL LETTER O WITH CIRCUMFLEX AND DOT BELOW
    ('\u{1ED9}', 'o'), // LATIN SMALL LETTER O WITH CIRCUMFLEX AND DOT BELOW
    ('\u{1EDA}', 'O'), // LATIN CAPITAL LETTER O WITH HORN AND ACUTE
    ('\u{1EDB}', 'o'), // LATIN SMALL LETTER O WITH HORN AND ACUTE
    ('\u{1EDC}', 'O'), // LATIN CAPITAL LETTER O WITH HORN AND GRAVE
    ('\u{1EDD}', 'o'), // LATIN SMALL LETTER O WITH HORN AND GRAVE
    ('\u{1EDE}', 'O'), // LATIN CAPITAL LETTER O WITH HORN AND HOOK ABOVE
    ('\u{1EDF}', 'o'), // LATIN SMALL LETTER O WITH HORN AND HOOK ABOVE
    ('\u{1EE0}', 'O'), // LATIN CAPITAL LETTER O WITH HORN AND TILDE
    ('\u{1EE1}', 'o'), // LATIN SMALL LETTER O WITH HORN AND TILDE
    ('\u{1EE2}', 'O'), // LATIN CAPITAL LETTER O WITH HORN AND DOT BELOW
    ('\u{1EE3}', 'o'), // LATIN SMALL LETTER O WITH HORN AND DOT BELOW
    ('\u{1EE5}', 'u'), // LATIN SMALL LETTER U WITH DOT BELOW
    ('\u{1EE7}', 'u'), // LATIN SMALL LETTER U WITH HOOK ABOVE
    ('\u{1EE8}', 'U'), // LATIN CAPITAL LETTER U WITH HORN AND ACUTE
    ('\u{1EE9}', 'u'), // LATIN SMALL LETTER U WITH HORN AND ACUTE
    ('\u{1EEA}', 'U'), // LATIN CAPITAL LETTER U WITH HORN AND GRAVE
    ('\u{1EEB}', 'u'), // LATIN SMALL LETTER U WITH HORN AND GRAVE
    ('\u{1EEC}', 'U'), // LATIN CAPITAL LETTER U WITH HORN AND HOOK ABOVE
    ('\u{1EED}', 'u'), // LATIN SMALL LETTER U WITH HORN AND HOOK ABOVE
    ('\u{1EEE}', 'U'), // LATIN CAPITAL LETTER U WITH HORN AND TILDE
    ('\u{1EEF}', 'u'), // LATIN SMALL LETTER U WITH HORN AND TILDE
    ('\u{1EF0}', 'U'), // LATIN CAPITAL LETTER U WITH HORN AND DOT BELOW
    ('\u{1EF1}', 'u'), // LATIN SMALL LETTER U WITH HORN AND DOT BELOW
    ('\u{1EF3}', 'y'), // LATIN SMALL LETTER Y WITH GRAVE
    ('\u{1EF5}', 'y'), // LATIN SMALL LETTER Y WITH DOT BELOW
    ('\u{1EF7}', 'y'), // LATIN SMALL LETTER Y WITH HOOK ABOVE
    ('\u{1EF9}', 'y'), // LATIN SMALL LETTER Y WITH TILDE
    ('\u{2071}', 'i'), // SUPERSCRIPT LATIN SMALL LETTER I
    ('\u{2095}', 'h'), // LATIN SUBSCRIPT SMALL LETTER H
    ('\u{2096}', 'k'), // LATIN SUBSCRIPT SMALL LETTER K
    ('\u{2097}', 'l'), // LATIN SUBSCRIPT SMALL LETTER L
    ('\u{2098}', 'm'), // LATIN SUBSCRIPT SMALL LETTER M
    ('\u{2099}', 'n'), // LATIN SUBSCRIPT SMALL LETTER N
    ('\u{209A}', 'p'), // LATIN SUBSCRIPT SMALL LETTER P
    ('\u{209B}', 's'), // LATIN SUBSCRIPT SMALL LETTER S
    ('\u{209C}', 't'), // LATIN SUBSCRIPT SMALL LETTER T
    ('\u{2184}', 'c'), // LATIN SMALL LETTER REVERSED C
];
