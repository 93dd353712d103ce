package workload

// Collisions are pairs of texts of one length that begin with different
// clusters and are the same to a hash function that somebody might use.
var Collisions = [][2]string{
	// h*31+b
	{"\u200d\u08e2", "\u200dः"},
	{"\u200d࢟", "\u200dᄀ"},
	{"\r\n", "\ng"},
	{"#ᅃ", "#ः"},
	{"\u070f;", "\u070eZ"},
	{"\u200d࢟", "\u200dᄀ"},
	{"𑏐c", "𑏑D"},
	{"്y", "ൎZ"},
	{"\u200d\U0001138d", "\u200d𑍬"},
	{"\u070fU", "ۭt"},
	// h*33+b
	{"\r\n", "\nm"},
	{"\r\n", "\vL"},
	{"\r\n", "\nm"},
	{"𑥂\x11", "𑥁2"},
	{"്{", "ൎZ"},
	{"\u0891\x1c", "\u0890="},
	{"\r\r\r", "\r\np"},
	{"𑪉k", "𑩪k"},
	{"𑎎ॗ", "𑎎ᄗ"},
	{"𑏑D", "𑏐e"},
	// h*33^b
	{"𑏑s", "𑏐R"},
	{"𑪄\x1a", "𑪆X"},
	{"𑎎ॗ", "𑎎ᄗ"},
	{"\u0891\u206c", "\u0891\u200d"},
	{"\u070e\n", "\u070f+"},
	{"𑏑D", "𑏐e"},
	{"\u200d\u200b2", "\u200d\u200dt"},
	{"\u200d\u200b2", "\u200d\u200dt"},
	{"𑏑N", "𑏐o"},
	{"𑏑o", "𑏐N"},
	// h*65599+b
	{"q𑘲🇳ퟻ", "ᆦ$\\्𑚬"},
	{"𑼂_ꥠ", "\u200dB𖵩"},
	{"E⏏격", "\u200cퟎ2"},
	{"쮀\u206d🇩<", "💖𐽋ᄟ"},
	{"\n\n\u200dB", "서\r8B"},
	{"꾢큐", "ꥠ레"},
	{"᨟\n\x19𑎲", "phsퟻ쾌"},
	{"탰\rD홰\u200d", "𐨓\u200d𑂹"},
	{"A[Sxꪷ", "짃)ᇿ"},
	{"\U0001fffdkq테", "െ\u200dힰ"},
	// h*131+b
	{"\rᩗ𑏐M", "ꩺꦜᇀ"},
	{"\u200c𑪈v", "𖵣\x1d뉘"},
	{"\u200c۟", "\u200dY\x1c"},
	{"<ಁ\u0089🇧", "H⚛𑼂\u070f"},
	{"\u200c۟", "\u200dY\x1c"},
	{"᫠훅7", "\x18➿ힲ"},
	{"్^%\n", "ౌ্"},
	{"𑤌n\u200cᅟ", "조🇿𐀀"},
	{"ᅬ\u200d<", "ᄀᇿa"},
	{"𑼂⌨", "𑼃`\n%"},
	// h*37+b
	{"\u200dᅱ", "\u200dૌ"},
	{"\r\n", "\ny"},
	{"\u200d\u200b2", "\u200d\u200c\r"},
	{"\r\n", "\ny"},
	{"𑲩ᇿ", "𑲩ି"},
	{"്|", "ൎW"},
	{"\r\n", "\ny"},
	{"᥎\u200c", "\u200e\u200c"},
	{"🇿\u200c\r", "🇿\u200b2"},
	{"᥎\u200c", "\u200e\u200c"},
	// h*31^b
	{"\u0890\n", "\u0891)"},
	{"ꥠ𑥀", "ꥠ𑤿"},
	{"𖵣ᄀ", "𖵣ᅧ"},
	{"𑏑M", "𑏐R"},
	{"𑵆i", "𐫥i"},
	{"\U000110bd.\u200c", "𑀀s\u200c"},
	{"ᄔᆪ", "ᅷᇍ"},
	{"𑪄\x1a", "𑪆X"},
	{"്{", "ൎZ"},
	{"z.,[", "tࣾ"},
	// fnv1
	{"\n𖵣쿄᩠", "\U000113cb𑃂ে"},
	{"\u200c8.", "Kၞc"},
	{"S섀}\r", "🇿\x1f\x1f"},
	{"~𑤸", "\f𑘾"},
	{"\f𑍂", "~𑑀"},
	{"E𑵆⚙", "\u0a4eᆧ$)"},
	{"𑨀\x1e", "\x16\n촩"},
	{"𑽂\n\x15🇬", "쓔ୱ\x19\u200d"},
	{"S섀}\r", "🇿\x1f\x1f"},
	{"코ᭁ2", "큐\n⁉"},
	// fnv1a
	{"\U0001f20f\u200c", "🇿풒"},
	{"\u061cZ1⛽☺", "ퟻ\n𖵧|`"},
	{"\U000e009dZY뱕O", "ꫫদꥲX"},
	{"𑵆🇦ᆉ", "ᅠ¨\rm𖿣"},
	{"⚽ꥼ", "ং\u200c"},
	{"\x1e𑇂", "H𑇀"},
	{"Q먁1N", "써ᄌ"},
	{"-ପ", "귚j"},
	{"꧀\nfr댜", "=uFᮯ୍"},
	{"\x15𝪄🇿", "𑨲𑌁\x16"},
	// crc32
	{"🇦\ud7ffc,", "𑥁𞄶N"},
	{"u\U000110bd\u200c", "𑇃\u200dt"},
	{"\u200d𑍢", "𖵧뵉"},
	{"\u200d𑆿", "𖵧뾔"},
	{"<᩠❓\r", "ힰ🔽<"},
	{"\vপힳ\U0001138a", "ᆧ퇦=𑏐"},
	{"\u200dᆽkB", "$𑈭ॗ"},
	{"4ᅲ\nꥡx", "ퟻ\x11ꥪq|"},
	{"솨몌\x14", "곟్\n"},
	{"ٯퟆz", "8o🇦"},
	// crc32c
	{"ꥳ O𑜠N", "𑑁\x12ꥵ\u06dd"},
	{"\U000e05bf𖵪\u200d\t", "\\\x0fퟻ윃\U0001bca0"},
	{"\U0001f85a\r\x18ퟻ", "A5ꨪ\U00013431"},
	{"ᄸ្", "@n\x16্"},
	{"▶𑈴𑒰&", "\u200c𑜥r𑩐"},
	{"yꥼ-ၡ\r", "ৰ\u200dᅈ"},
	{"Ⓓ\u200dꥼ", "Gꥠ🇿\r"},
	{"⌨\u070f\n", "o🇫\r"},
	{"\nᅟ\x1b^", "🇩0}"},
	{"칇궿\rf", "/7쀻ꥼ"},
	// adler32
	{"솨▪", "्᩠"},
	{"ᅟퟓ \x0e🇦", "\u200c\u200d\r𑚬]"},
	{"🇿\u202b ", "ൎ휘^`"},
	{"ꥥ🛞", "ꧦ𑩛"},
	{"ퟭn\u202e", "𑗜ᄞ"},
	{"E္", ":\u08e2"},
	{"\"킈", "*\u200d"},
	{"𑃂뢕", "ᇈ𑄳"},
	{"O𖵦\x0f\u200d", "ퟀR\n𑩜"},
	{",ᮨ_🇸", "'𑤿dᨘ"},
	// sum
	{"్\x1b", "\x1e✝"},
	{"X\v🇿ᅠ고", "Q\u200d더Z𑭧"},
	{"o삔\x1e\u200c", "ퟐ\u200dL&"},
	{"\\ᅠ트", "\u0891➿?"},
	{">\U000e0416", "𖵣\x19"},
	{"\u00a0\u200c\x1eᇿ", "🕯\r𝨀"},
	{"\x1eꥠ", ";्"},
	{"&\x11ퟹ", "\u200d\x1fn"},
	{"\u200cYퟀ", "\n്ౖ"},
	{"\u06dd\U0001138c", "ࡏᄞ"},
	// xor
	{" \x0f⚜ௗ", "⚙\nퟀ\n"},
	{"ᅠ𑲱ܰꥼ", "X\v🇿ᅠ고"},
	{"쁘\u00ad", "\rᅠS"},
	{"\n🇿", "🗨\r"},
	{"ᄛ/", "\x1eᆨ"},
	{"ퟻ쩩", "\u06dd\U0001138c"},
	{"예ᄀ\aS", "A\u200c\u200d\r"},
	{"ေ므ෑ", "\"↔{𖵨"},
	{"\np𑤆n", "e్\u200c"},
	{" \x0f⚜ௗ", "ᇊ\r\u200d\x1d"},
	// murmur3
	{"ᄪ9\r", "\x0f:㊗"},
	{"ဿ\u200d\x17", "P︯❗"},
	{"\x13𑇎\r🇾\x15", "ᇵ2ힰ🇿"},
	{"^\r𑍢ꥩ", "ন#\u200d~\n"},
	{"্🇭", "\r𑑆/\n"},
	{"᮫\ufeff_'", "Pt\u200d\u200c"},
	{"\rN\ufff0\r\u200c", "ퟋK𑚪E"},
	{"𑇂X&\x18", "홇)ᝲ"},
	{"b〰축𑇃", "1ﾞത𑵆"},
	{"ퟚꫡ\u061c", "\x1fY\u061c\U0001d178"},
	// jenkins
	{"Se햫O,", "𑆂ꩺ"},
	{"Wퟫx\rា", "ᆧ\u200d\u200c"},
	{"8!<ྰ\r", "္:9\rS"},
	{"\u202b𑐷↙", "🇦혜ퟻ"},
	{"\r᩿\u200d\x11", "\U000110bd\rः"},
	{"\u200c𑪙\x13", "w్🇦"},
	{"ු3\u200d", "ᄣ༷L"},
	{"ퟣ🇦҂", "V\u200c\U000110bdB"},
	{"é_🇿A\x1f", "ൎ\u200d\u200d"},
	{"^X\x12쀡", "ퟪ\nS\n"},
	// h*16777619^b0
	{"2𑄬ꥥ", "ᄡe\x1fퟍ"},
	{"ᇿ\vR", "\n\v༷"},
	{"𑤿N촤", "\nࠝ)ឳ"},
	{"⚜\r𑼂", "\n🇵ᅟ"},
	{"ੋ\u200c\nᩂ", "🛥🇦\nU"},
	{"a𑼾", "\x13𑰸"},
	{"`𑖱", "\x12𑖳"},
	{"\u070fa\u200c", "ᮽ늑"},
	{"Ⓜ\u200cᄀ", "🇹ᇤ6m"},
	{"\x12𑒾", "`𑒼"},
	// h*16777619+b
	{"🇴]\x13ퟒ", "\n\\\u00ad🇳n"},
	{"\u200cᇿ𑚬", "ퟓ\u200c\x12ꯘ"},
	{"ꥰ\x15𑤾", "S\u009aI𑶎"},
	{"6S\U0001d17a", "ꢀᆸ"},
	{"륳᯳", "𑼂vG"},
	{"𑈴ힷ\u200d\x0fD", "𑇂ଡ଼র\u061c"},
	{"\n𑽚B", "𑤾\x0f6"},
	{"x᮫ᄀ⛏", ",ᇯ🇭\x12/"},
	{"ퟆ➿ik\x0e", "🇳-\u202fD"},
	{"ힿퟻ[", "\r]𑭥U"},
	// h*5+b
	{"Mၡ", "M\u200d"},
	{"Mၡ", "M\u200d"},
	{"\u200d\u200c", "\u200c\u0891"},
	{"\n\rb", "\r\n&"},
	{"\u08e2I", "☝{"},
	{"ಁ\rꨩ", "\u08e2𝆋"},
	{"\u200dक", "\u200d࢟"},
	{"T្", "uP@y"},
	{"\u200c\U000110bd", "ᇂ𐇽"},
	{"ᆧᇿ", "\u2067ᇿ"},
	// h*257+b
	{"ퟋcU𐨿", "\U000e0080🇯\\"},
	{"헥\u200d쏎\r", "찧\r\u200d\u200d"},
	{"Hᯧ\n\x1b", "\r]\x14✨"},
	{"\u200dવ", "ᅃꥶ"},
	{"d⛺🇧", "𑄳\x1fg\r\r"},
	{"ᄓL)6✨", "𑽂yyퟋ"},
	{"ᮮ쟤", "ᬶৢ"},
	{"𑇃𐨆", "𑼂್Z"},
	{"𖵪𖵣ꥶI", "🇩🇯𑘴"},
	{"\u070f\n똏\x19", "ퟵGᆱ"},
	// h*101+b
	{"\u0891\r", "\u0890r"},
	{"\r\v\n", "\r\no"},
	{"d𑏐z", "d𑏑\x15"},
	{"𑇃\x0e", "𑇂s"},
	{"𑼃\x10", "𑼂u"},
	{"𑇂|", "𑇃\x17"},
	{"\u0604\n", "\u0603o"},
	{"𑼃\n", "𑼂o"},
	{"𖵩\u200c\n", "𖵩\u200bo"},
	{"𑥂\x12", "𑥁w"},
	// h*53+b
	{"𑇃\n", "𑇂?"},
	{"𑪉\r", "𑪈B"},
	{"\r\n", "\vt"},
	{"🇿🇦", "\U0001f20a🇦"},
	{"𑇃\x0e", "𑇂C"},
	{"\r\f\n", "\r\nt"},
	{"𑤾x", "𑤿C"},
	{"5ᇿ", "5༿"},
	{"\u200dᇿ", "\u200d༿"},
	{"\u0891\x1c", "\u0890Q"},
	// rotl5^b
	{"n\u200d\u206f", "f\u200d\u200d"},
	{"ꥸᆨ", "녹"},
	{"\u070e\n", "\u070f*"},
	{"𑏑C", "𑏐c"},
	{"ퟻ\u200d\x0f{", "\ufffb\u200eoc"},
	{"ᄀꥠ", "ᅠꥠ"},
	{"\x10\u200dퟚ", "8\u200dힰ"},
	{"X\u200dᄷ", "\x10\u200dᄥ"},
	{"𑪅\r", "𑪆m"},
	{"ᅠᅟ", "ᄀᅟ"},
	// rotl1+b
	{"𐨿}j_", "𑆵ᤫ"},
	{"\U0001f0c0\u200d", "🧫M\n5"},
	{"쩩:\x12", "𑄩H"},
	{">\U0001d173", ">𑪙"},
	{"j᩠", "sᅠ"},
	{"\u200cႄ", "\u200cᄀ"},
	{"𑪈\ue000", "𑎸ퟆ"},
	{"Bન", "O\u200c"},
	{"\u06dd\U0001138c", "𖵣i6"},
	{"\x18꫶", ",\u200c"},
}
