// The conversions and byte alphabets shared by the chunking / reuse / output-mode / isolation /
// memory explorers.  Tokens are hex byte strings; an input is a concatenation of tokens.
#pragma once
#include "mc.hpp"
struct CV { S conv; VS tok; int ql, tl; }; // ql/tl: token-sequence length, quick / thorough
static inline VS T(const char *s) { VS v; for (auto &x : split(s, ' ')) if (x.size()) v.push_back(unhex(x)); return v; }
static inline VS TS(std::initializer_list<const char *> l) { VS v; for (auto x : l) v.push_back(x); return v; }
#define SHOW ":insert#after=002c:bsdconv-keyword,bsdconv"

// a long input: all tokens in turn (pat 0), or one of them over and over
static inline S longin(const CV &e, int pat, size_t n) { S r; for (size_t i = 0; r.size() < n; i++) r += pat ? e.tok[(pat - 1) % e.tok.size()] : e.tok[i % e.tok.size()]; return r.substr(0, n); }
static std::vector<CV> conversions() {
	std::vector<CV> v;
	auto F = [&](const char *f, const char *toks, int ql = 3, int tl = 4) { v.push_back({S(f) + SHOW, T(toks), ql, tl}); };
	// ---- decoders
	const char *U = "00 41 80 9F A0 BF C0 C3A9 E0 E6B8AC EDA080 EDB080 F0 F0908080 F490 FF";
	for (const char *a : {"_utf-8", "utf-8", "utf-8,any#01fffd&error", "_utf-8#cesu,ascii,3f", "_utf-8#cesu&loose,ascii,3f", "_utf-8#loose,3f", "_utf-8#nul&overlong,3f", "_utf-8#super,3f", "_utf-8#cesu&loose&nul&overlong&super,ascii,byte"})
		F(a, U, 3, 4);
	F("utf-8,byte", "41 E6 B8 AC F0 90 80 C0", 5, 6);
	F("_utf-8#cesu,byte", "ED A0 B0 80 41 E6", 6, 7);
	F("_utf-8#cesu&loose,byte", "ED A0 B0 80 41 E6", 6, 7);
	F("ascii", "00 0A 41 7E 7F 80 FF"); F("ascii,byte", "00 41 80 FF"); F("byte", "00 41 FF"); F("00,ascii,3f", "00 41 FF");
	F("any", "00 41 FF"); F("any#drop&error", "00 41 FF"); F("any#013f.01fffd&error=X", "00 41"); F("ascii,any#error", "41 FF");
	F("ascii,skip", "41 FF"); F("ascii:pass#mark|pass#unmark,ascii", "41 0142 FF"); F("ascii,byte:pass|pass#for=unicode,any#drop", "41 FF 01");
	F("hex", "30 39 41 66 47 20 0A", 4, 5);
	F("utf-16le", "00 41 D8 DC 3D FE FF 01 20", 4, 5); F("utf-16be", "00 41 D8 DC 3D FE FF 01 20", 4, 5);
	F("utf-16le,byte", "00 D8 DC 41 FE FF", 5, 6); F("utf-16be,byte", "00 D8 DC 41 FE FF", 5, 6);
	F("ucs-2", "00 41 D8 DC FF FE"); F("ucs-2be", "00 41 D8 DC FF FE");
	F("utf-32le", "00 41 10 11 D8 FF FE 000000 41000000", 4, 5); F("utf-32be", "00 41 10 11 D8 FE FF 000000 00000041", 4, 5);
	F("utf-32be,byte", "00 01 10 11 D8 FE FF", 5, 6); F("utf-32le,byte", "00 01 10 11 D8 FE FF", 5, 6);
	for (const char *a : {"big5", "cp950", "uao241", "uao250,3f", "big5-5c,uao250", "hkscs1999", "hkscs2001", "hkscs2004", "big5e", "big5-2003", "big5-eten", "_uao250,byte", "_hkscs2004"})
		F(a, "41 5C 5B A4 40 A5 7E 87 88 62 66 FA A1 FE 80 FF", 3, 4);
	F("cp950-uda,ascii,byte", "41 FA 40 7E A1 FE 8E 81 C6 C8 D3 A0", 3, 5); F("cp950,byte", "41 FA 40 7E A1 FE 8E 81 C6 A4", 3, 4);
	for (const char *a : {"gbk", "cp936", "gb2312", "_gbk,byte", "gb18030", "_gb18030,byte", "gb18030,3f"})
		F(a, "41 30 39 81 84 A4 A1 B0 E3 32 9A FE FF 7F 80 31", 3, 4);
	F("_gb18030,byte", "30 39 81 84 90 E3", 5, 6);
	for (const char *a : {"cp949", "cp932", "shift-jis", "_shift-jis,byte", "_jis0201", "_jis0208", "_jis0212"})
		F(a, "41 5C 81 82 A0 40 7E 80 FC B0 A1 21 22 DF FF", 3, 4);
	F("jis", "1B2842 1B284A 1B2440 1B2442 1B242844 1B2849 1B 24 28 42 21 30 7E 41 0A 80", 3, 4);
	F("jis,byte", "1B 24 28 42 44 30 21 4A", 5, 6);
	F("cccii", "21 30 22 7E 41 1B 4E 80 2121 30", 4, 5);
	for (const char *a : {"cp1251", "cp1252", "cp1253", "cp1254", "cp1255", "cp1256", "cp1257", "cp1258", "cp874", "iso-8859-1", "latin1", "_cp1252,3f", "fallback-unicode"})
		F(a, "00 41 7F 80 81 90 9D A0 AA D2 FF", 2, 3);
	F("ibm-37", "00 15 40 4B C1 FF 0E 0F");
	for (const char *a : {"ibm-930", "ibm-933", "ibm-935", "ibm-937", "ibm-939"}) F(a, "0E 0F 40 41 C1 43 58 4C FF 00 42", 4, 5);
	F("ibm-937,byte", "0E 0F 4C 41 FF 40", 6, 7);
	F("ansi-control", "1B 5B 33 31 3B 6D 41 40 7E", 4, 5); F("ansi-control,ascii", "1B 5B 33 31 3B 6D 41 48", 5, 6); F("ansi-control,byte", "1B 5B 33 3B 6D A4 40", 5, 6);
	F("ascii-numeric-html-entity,ascii", "26 23 78 58 34 31 46 3B 61 3030303030", 5, 6); F("htmlentity,byte", "26 23 78 31 3B 39", 6, 7);
	F("ascii-named-html-entity,ascii", "26 616D70 616D 70 6C74 3B 616E67 6E6F74 696E 67 41", 4, 5);
	F("escape", "5C 25 75 78 30 31 37 38 61 46", 4, 5); F("escape,ascii", "5C 25 75 78 30 34 37 61 5C6E", 5, 6); F("escape,byte", "5C 25 75 55 78 30 33 39 66 67", 5, 6);
	F("bsdconv", "30 31 34 46 2C 61 20 0A 47", 4, 5); F("bsdconv-keyword,bsdconv", "30 31 33 42 2C 20 0A", 4, 5); F("bsdconv-keyword,ascii", "2C 30 41 0A", 4, 5);
	F("utf-8:pass#mark|skip,big5", "41 A4 40 E6B8AC FF", 3, 4);
	// ---- transformations: UTF-8 in, UTF-8 out
	auto I = [&](const char *x, std::initializer_list<const char *> toks, int ql = 3, int tl = 4) { v.push_back({S("utf-8:") + x + ":utf-8", TS(toks), ql, tl}); };
	auto NF = {"a", "A", "\xCC\x81", "\xCC\xA7", "\xC3\xA9", "\xE1\xBA\xA1", "\xE1\x84\x80", "\xE1\x85\xA1", "\xE1\x86\xA8", "\xEA\xB0\x80", "\xEF\xAC\x81", "\xE2\x84\xAB", "\xF0\x9D\x85\x9E", "\xFF"};
	for (const char *n : {"nfc", "nfd", "nfkc", "nfkd", "_nfc", "_nf-order", "_nf-hangul-composition", "_nf-hangul-decomposition", "nfkd-casefold", "nfc:nfd", "nfd,nfkd"})
		I(n, NF, 3, 4);
	for (const char *n : {"upper", "lower", "casefold", "full", "half", "super", "sub", "upsidedown", "asciifold", "kana-phonetic", "upper,null", "pass,upper"})
		I(n, {"a", "Z", "1", "\xC3\x9F", "\xC4\xB0", "\xC7\x86", "\xEF\xBC\xA1", "\xE3\x82\xAD", "\xE3\x83\xA3", "\xE3\x81\x8B", "\xE3\x81\xA3", "\xFF"}, 3, 4);
	for (const char *n : {"zhtw", "zhcn", "zhtw-words", "zhtw:zhtw-words", "kanji", "hanja", "zh-fuzzy-tw", "zh-fuzzy-cn", "bmp-trans-tw", "bmp-trans-cn", "whitespace-derail:zhtw:zhtw-words:whitespace-rerail", "zh-bonus-phrase", "zh-bonus-phrase,zh-bonus", "zh-bonus"})
		I(n, {"\xE4\xB9\x8B", "\xE5\x90\x8E", "\xE5\xBE\x8C", "\xE6\xB5\x8B", "\xE8\xAF\x95", "\xE9\xBA\xBC", "\xE4\xB8\x80", "\xE4\xB8\xAA", "\xE5\x80\x8B", " ", "a", "\xC3\xA9"}, 3, 4);
	for (const char *n : {"nl2br", "unix", "win", "mac", "win:unix", "mac:win"}) I(n, {"a", "\r", "\n", "\r\n", "\xE6\xB8\xAC"}, 5, 6);
	I("whitespace-derail", {"a", " ", "\t", "\r", "\n", "\xE3\x80\x80", "\xE6\xB8\xAC"}, 4, 5);
	I("whitespace-derail:whitespace-rerail", {"a", " ", "\t", "\r", "\n", "\xE3\x80\x80", "\xE6\xB8\xAC"}, 4, 5);
	I("whitespace-derail:replace#0161.0162=0163:whitespace-rerail", {"a", "b", " ", "\t", "\n"}, 5, 6);
	I("ambiguous-pad", {"a", "\xD0\x91", "\xC2\xA0", "\xE6\xB8\xAC", " "}, 5, 6); I("ambiguous-unpad", {"a", "\xD0\x91", "\xC2\xA0", "\xE6\xB8\xAC", " "}, 5, 6); I("ambiguous-pad:ambiguous-unpad", {"a", "\xD0\x91", "\xC2\xA0", " "}, 5, 6);
	for (const char *n : {"replace#0161=0162", "replace#0161.0162=0163.0164", "replace#0161.0161=0162", "replace#0161.0162.0161.0163", "replace#0161.0162.0161=", "nobom", "replace#0161.0162=,upper", "replace#0161.0162=0131:replace#0162.0161=0132"})
		I(n, {"a", "b", "c", "\xEF\xBB\xBF", "\xFF"}, 5, 7);
	for (const char *n : {"insert#after=012c", "insert#before=012c.0120", "insert#before=0128&after=0129", "split", "insert#after=012c:upper"}) I(n, {"a", "\xE6\xB8\xAC", "\xFF"}, 4, 6);
	for (const char *n : {"strings", "strings#min-len=2", "strings#for=cjk&min-len=2&after=013b", "strings#before=013e&after=013c", "zh-strings", "strings#for=latin,upper"}) I(n, {"a", "b", "\xE6\xB8\xAC", "\xE8\xA9\xA6", "\x01", "\xD0\x91", "\xFF"}, 4, 5);
	for (const char *n : {"trim-width#3", "trim-width#0", "trim-width#4&ambi-as-wide", "trim-width#2,upper"}) I(n, {"a", "\xD0\x91", "\xE6\xB8\xAC", "\n", "\xFF"}, 5, 6);
	for (const char *n : {"count", "count#for=cjk", "count#for=lala&for=cjk", "width", "score#with=cjk", "score#with=latin1&as=x", "pass#for=unicode", "pass#limit=2", "pass#for=cjk&limit=1", "null", "upper,null", "pass"}) I(n, {"a", "\xD0\x91", "\xE6\xB8\xAC", "\n", "\xF0\x9F\x98\x80", "\xFF"}, 3, 4);
	v.push_back({"bsdconv:nfc:bsdconv", T("30 31 33 2C 43 44 65"), 4, 5});
	v.push_back({"ansi-control,byte:big5-defrag:byte,ansi-control|skip,big5" SHOW, T("1B5B316D 1B5B A4 40 41 0A AF E0 FF"), 4, 5});
	v.push_back({"byte:big5-defrag:byte|pass" SHOW, T("A4 40 41 0A FE 80 FF"), 4, 5});
	v.push_back({"ascii:alias-from:ascii", TS({"UTF-8", "BIG5", "\n", "\r", "x", "C", "a"}), 3, 4});
	v.push_back({"ascii:alias-to:ascii", TS({"UTF-8", "BIG5", "\n", "x"}), 3, 4});
	v.push_back({"ascii:alias-inter:ascii", TS({"NFC", "NFD", "\n", "x"}), 3, 4});
	v.push_back({"ascii:alias-filter:ascii", TS({"01", "1", "\n", "x"}), 3, 4});
	// ---- encoders: UTF-8 in
	auto E = [&](const char *to, int ql = 3, int tl = 4) { v.push_back({S("utf-8:") + to, T("61 5C 7F C2A0 C3A9 D091 E38182 E6B8AC E4B880 F09F9880 EFBFBD 00 26 3C FF"), ql, tl}); };
	for (const char *t : {"ascii", "utf-8", "utf-16le", "utf-16be", "utf-32le", "utf-32be", "ucs-2le", "ucs-2be", "utf-16", "ucs-4", "big5", "uao241", "uao250", "big5-5c,uao250", "cp950", "cp950-trans,ascii", "cp936", "cp936-trans,ascii", "gb2312", "gbk", "gb18030", "cp949", "shift-jis", "jis", "cccii", "cp1251", "cp1252", "cp1253", "cp874", "iso-8859-1",
		"ibm-37", "ibm-930", "ibm-933", "ibm-935", "ibm-937", "ibm-939", "ibm-930,any#3f&error", "ascii,any#3f&error", "ascii,3f", "ascii,any#3f.3e&error=Z", "any", "any#drop", "null", "ascii,null", "raw", "bsdconv", "hex", "00,ascii",
		"ascii-named-html-entity,ascii", "htmlentity,ascii", "ascii,htmlentity", "ascii-dec-numeric-html-entity", "url", "ascii,source", "java", "ascii,escape#for=unicode&mode=oct&prefix=5c", "ascii-html-info", "html-img,ascii", "pass", "pass#for=unicode", "byte",
		"utf-16le|utf-16le:utf-8", "gb18030|gb18030:utf-8", "big5|big5:utf-8,ascii", "pass#mark&for=unicode|skip,big5:utf-8", "ibm-930|ibm-930:utf-8", "utf-8|utf-8:utf-8|utf-8:utf-16be"})
		E(t);
	// nested pipelines mixing stateful parts
	v.push_back({"jis:nfkc:ibm-930", T("1B2442 1B2842 2422 30 41 1B 24 28"), 3, 4});
	v.push_back({"ibm-937:whitespace-derail:zhcn:whitespace-rerail:gb18030", T("0E 0F 40 4C41 4C C1 58"), 4, 5});
	v.push_back({"escape,utf-8:pass#mark&for=unicode,byte|skip,big5:utf-8", T("5C 25 75 A4 40 36 65 E6B8AC 41"), 4, 5});
	v.push_back({"escape,ascii-numeric-html-entity,ascii:upper:url", T("5C 26 23 75 33 34 3B 61 25"), 4, 5});
	return v;
}
// all token sequences of length 0..len, by index
static inline u64 nseq(size_t k, int len) { u64 n = 0, p = 1; for (int i = 0; i <= len; i++) { n += p; p *= k; } return n; }
static inline S seq(const VS &tok, u64 idx) {
	u64 p = 1; int len = 0;
	while (idx >= p) { idx -= p; p *= tok.size(); len++; }
	S r; for (int i = 0; i < len; i++) { r = tok[idx % tok.size()] + r; idx /= tok.size(); }
	return r;
}
