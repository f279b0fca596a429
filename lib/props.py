"""The registered properties: which explorers decide them."""
import build as B
HARNESS = {}
PROPS = {}


def prop(pid, level, rule, run, assumptions=(), data=None):
    PROPS[pid] = {"level": level, "rule": rule, "run": run, "assumptions": list(assumptions), "data": data}


prop("P01", "model_checking",
     "for each conversion, every token sequence to the bound as input; every set of cut positions up to 7 bytes, "
     "every single and double cut and bytewise beyond; with empty pieces, chained buffers and borrowed buffers; long inputs of every conversion; "
     "state = (conversion, input), transition = one library call on a piece",
     lambda r: r.cpp("p01"))
prop("P02", "model_checking",
     "for each conversion, every byte prefix of every token sequence to the bound as abandoned history (with/without flush, "
     "output fetched or held, twice, bytewise, long), then init, then every next input to the bound, against a new instance; "
     "state = (conversion, history), transition = one conversion run",
     lambda r: r.cpp("p02"))
HARNESS["p14"] = HARNESS["p03"] = {"extra": "-rdynamic"}
prop("P03", "model_checking",
     "for each conversion, every token sequence to the bound, cut in two, with every sequence of three output modes "
     "(8 modes) over the calls and a final drain; every script of partial/interrupted writes to a depth; every "
     "hand-over of one instance to another against the joined conversion; outputs of every size around powers of two to 16 MB; state = (conversion, input), transition = one library call",
     lambda r: r.cpp("p03", extra="-rdynamic"))


def golden(*names):
    """unpacks golden/NAME.tar.xz below the run's scratch directory"""
    def f(run):
        import os, subprocess
        d = os.path.join(run.tmp, "golden-" + "-".join(names))
        if not os.path.isdir(d):
            os.makedirs(d)
            for name in names:
                subprocess.check_call(["tar", "-xJf", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", name + ".tar.xz"), "-C", d])
        return d
    return f


prop("P04", "model_checking",
     "every one- and two-byte input of 66 decoders and aliases (three bytes for CCCII, four-byte codes of GB18030), all code "
     "sequences to length 4 over 23 byte-class representatives, all 0x110000 code points and other typed data through 43 "
     "encoders and aliases, multi-character keys with every prefix; whole charsets in one input; state = (codec, input) compared with the frozen tables "
     "read by an independent interpreter",
     lambda r: r.cpp("p04", data=golden("tables")(r)), data=golden("tables"),
     assumptions=["golden/tables.tar.xz is the published mapping: taken from the pinned tree after repair and cross-checked with Python's codecs where it has the set"])
prop("P14", "model_checking",
     "every sequence of set (two or three values incl. NULL), get, has and delete to depth 4-6 (thorough 5-7) over 2, 3 and 5 keys and over two "
     "instances, final map audited in both orders; every sequence to depth 5 of counter look-up, increment through a new or an "
     "old cell, reset of one name or all, re-initialisation and conversion; long names; maps of many entries; state = operation sequence, transition = one operation",
     lambda r: r.cpp("p14", extra="-rdynamic"))
prop("P05", "model_checking",
     "every ordered table of up to three entries over small key alphabets (exact, wildcard and case-insensitive byte keys to length 3; data keys to "
     "three data), every combination of shared value lists, up to three entries handed to a callback (same data or not, one the beginning of another, exact, wildcard or either case), every way of writing a line, keys listed in either case, values and keys of every length to 130 (1,100) bytes and up to 4,096, each compiled by the tree's bsdconv-mktable, loaded and run on "
     "every input to length 4; every key of every table of the tree with its prefixes and extensions; oracle: a matcher that reads the source text; "
     "state = table, transition = one input",
     lambda r: r.cpp("p05", data=B.REPO + "/modules"), data=lambda r: B.REPO + "/modules")
prop("P06", "model_checking",
     "18 synthetic codecs with overlapping keys: every decoder, transformation and encoder list to length three, every two- and three-phase combination, "
     "whole and joined conversions; every input to length 5-7, in one call, byte by byte, and with a separate flush; long inputs; oracle: ideal interpreter "
     "(composition of phases, first accepting codec, longest match, one unit dropped per error) with data boundaries and both counters; "
     "state = (pipeline, input), transition = one call",
     lambda r: r.cpp("p06"))
prop("P07", "model_checking",
     "for all 32 option sets (with and without ASCII in front): every one- and two-byte input, every three-byte input for four sets, every sequence of "
     "four bytes over 31 byte classes, every sequence of four out of 28 well-formed, overlong, surrogate, truncated and oversized encodings, every code point in every "
     "length, surrogate pairs; every code point in one text, texts and repetitions of every size; oracle: decoder written from the definition of UTF-8/CESU-8; state = (options, input)",
     lambda r: r.cpp("p07"), assumptions=["an option set which lists NUL without OVERLONG still rejects C0 80, as documented", "code points above U+7FFFFFFF cannot be written; above U+10FFFF in steps"])
prop("P08", "model_checking",
     "every scalar value through 20 encoders and aliases (UTF-8/16/32, UCS-2/4, GB18030, numeric escapes) against encoders written from the standards, and "
     "back; every sequence of up to 6 (7) bytes over 12 byte classes, every unit and word, and every lead surrogate with other units through the UTF-16/32 "
     "decoders against a model of their units; every text of 3 (4) characters out of 20; texts of every size and all of Unicode in one; state = (codec, input)",
     lambda r: r.cpp("p08"), assumptions=["GB18030 codes of the BMP are decided by P04; here only that they decode back", "\\\\u and %u escapes hold characters up to U+FFFF"])
prop("P09", "model_checking",
     "all four forms on every assigned character alone and in six surroundings, unassigned code points and other data, every first character of a composite (and every composite) "
     "with every mark and second, every Hangul syllable and jamo sequence, base + every three of the combining classes and composing marks, all sequences to length 4 (5) of 26 mixed elements, "
     "runs of up to 2048 marks; one instance for thousands of texts; texts of any length; oracle: UAX #15 on independent character data; state = (form, text)",
     lambda r: r.cpp("p09", data=golden("unidata")(r)), data=golden("unidata"),
     assumptions=["golden/unidata.tar.xz is the Unicode 13 data (from Python's and Perl's copies, not from the tree)"])
prop("P10", "model_checking",
     "39 transformations and lists/chains of them: every code point (alone, doubled, marked, as other types, with leading and trailing bytes), every listed sequence with all its beginnings, "
     "splices, every head of another sequence around it and single replacements, all sequences to length 4 (5) over the most used characters; every code point in one list and lists of up to 40,000 data; oracle: frozen tables read by an independent "
     "longest-match interpreter; upper/lower/casefold and nfkd-casefold on every assigned character against Unicode data; full/half on every form both ways; state = (transformation, data)",
     lambda r: r.cpp("p10", data=golden("tables", "unidata")(r)), data=golden("tables", "unidata"),
     assumptions=["golden/tables.tar.xz holds the defined counterparts: the tables of the pinned tree"])
prop("P11", "model_checking",
     "every code point (singly on both sides of every boundary, else in sixteens) and other types through every counting, width and scoring phase with every filter, and through chains sharing counters; every sequence of up to "
     "3 (4) mixed data; input and output errors of 32 decoders and 28 encoders against what a fallback gets instead, on every one- and two-byte input, three- and four-byte inputs over 29 classes, every code point; every entry of the "
     "scoring tables; training then scoring; every sequence of 5 (6) conversions, initialisations and resets; counters whose names begin with each other; score files and numbers of data of every size; ANY with every sequence of up to 3 (4) arguments on every text of up to 4; every sequence of 5 (6) attachments of score and list files, texts and initialisations on five conversions; oracle: sets of code points and Unicode data; state = (phases, data)",
     lambda r: r.cpp("p11", data=golden("tables", "unidata", "sets")(r)), data=golden("tables", "unidata", "sets"),
     assumptions=["golden/sets.tar.xz holds the blocks of each filter (checked against Unicode's Blocks.txt) and the weights of each scorer", "the width of unassigned code points is not specified"])
prop("P20", "model_checking",
     "16 lists of the decoders with state (ISO-2022-JP with X 0201 and X 0212, control sequences, Big5 user area) on every string of up to 5-7 (6-8) of the bytes, escape sequences and fragments that matter to them, some byte by byte; the five EBCDIC code pages on "
     "every string of up to 6 (7) bytes of every class they have; every pair of bytes in every state of each, after and before others; control sequences and runs of up to 3,000 bytes, and of any size to 70,000 (1,100,000); EBCDIC encoders on every text of 5-6 characters of every class (single, "
     "double, shift codes, unknown), in one call and datum by datum, and on every code point in four surroundings; what they write decoded again; whole code pages in one text, in ten orders and through every escape; oracle: automata written from ISO 2022, RFC 1468/2237, ECMA-48 and IBM's shift rules, code charts frozen; "
     "state = (mode, pending bytes) x input",
     lambda r: r.cpp("p20", data=golden("tables")(r)), data=golden("tables"),
     assumptions=["leniency of the EBCDIC decoders on malformed input (a byte of double-byte mode which begins no code counts for itself, in single-byte mode a byte which is no code may begin one) is kept, the mode is not", "a truncated escape sequence at the end leaves the initial state",
                  "control strings (OSC, DCS) are taken as two-byte sequences around text; bytes which are not allowed inside a control sequence do not end it"])
prop("P21", "model_checking",
     "every filter and alias on every code point (and other types, marks, leading bytes at every boundary) as decoder, transformation and encoder; every list of up to three out of nine filtered/limited elements on every sequence of up to 3-4 data; "
     "every pair of encoder list and decoder list of up to two (three) elements out of 13 and 11 on every sequence of up to 2 (3) of 20 marked and unmarked data, joined and handed over, with phases in between, over three conversions; limits and numbers of data of every size; "
     "oracle: interpreter of data with marks; state = (phases, data)",
     lambda r: r.cpp("p21", data=golden("tables", "unidata", "sets")(r)), data=golden("tables", "unidata", "sets"),
     assumptions=["golden/sets.tar.xz holds the blocks of each filter (checked against Unicode's Blocks.txt)"])
HARNESS["p12"] = {"extra": "-rdynamic"}
prop("P12", "model_checking",
     "every string of up to 5 (6) out of 14 tokens and of up to 6 (7) out of 10 larger pieces; every module and alias name of every kind in every place, upper, lower and mixed case, with white space, junk, "
     "removed and changed characters at every position; every combination of up to 3 (4) arguments of 12 codecs; every setting of three locale variables; every installation lacking any of 11 modules (2,048) or holding one which is empty, a directory, junk or a dangling link; 14 conversions with codecs which need files in every setting of the four variables naming them (unset, usable, absent, a directory, empty, of every critical length); each: accepted or not, error, packed form, packed form of that, heap and descriptors, nothing printed; strings of every size; "
     "oracle: the grammar on the alias files and module directories; state = string",
     lambda r: r.cpp("p12", extra="-rdynamic", data=B.REPO + "/modules"), data=lambda r: B.REPO + "/modules",
     assumptions=["what a repeated key of one argument list, or FOR without a value, means is not specified"])
HARNESS["p13"] = {"extra": "-rdynamic"}
prop("P13", "model_checking",
     "every insertion and replacement of a phase or codec of every kind at every valid place counted from both ends, on 12 conversions, then every edit of the result, to depth 3 (4), against a "
     "model of the string as a list of phases of codecs; every string of up to 6 (7) out of 8 tokens, malformed ones too, under every operation; every index of every phase and codec of combined conversions; "
     "listings and checks of made-up directories of 0 to 34 (58) modules times 0 to 35 (59) aliases, and every installed name in every place; strings, indices and listings of every size; heap and descriptors; state = (string, edit)",
     lambda r: r.cpp("p13", extra="-rdynamic"),
     assumptions=["replacing at a place that does not exist is not specified"])
prop("P16", "model_checking",
     "the real program under ptrace: every system call of its run after exec as kill point (before, after), with every plausible error and every short transfer, alone and in pairs, over file sizes around the block size, "
     "modes, owners and several files; the named files read after every system call; exit status, messages, modes, owners and left-over files at the end; state = (files, faults), transition = system call",
     lambda r: r.cpp("p16"),
     assumptions=["the file system applies system calls in order (killed process, not power loss)", "how often mkstemp draws a random name is not counted as a fault point", "a crash is accepted only when an allocation was made to fail (the property is about the file)"])
prop("P22", "model_checking",
     "16 conversions over every size around the block boundaries with every kind of character straddling them, from a file, standard input, pipes delivering every cut (sequences of three pieces of six sizes, every composition of short inputs) and to a full "
     "device; every sequence of up to three (four) files out of seven kinds, plain and in place; several files of every one of 262 conversions; made-up manual pages and redirections; all programs with a relative module path; 18 unusable conversions; completion of every string of up to 3 (4) tokens and every name; every manual page; many files at once, files of any name; oracle: one library call, the installed files",
     lambda r: r.cpp("p22", data=B.REPO + "/modules"), data=lambda r: B.REPO + "/modules")
prop("P17", "model_checking",
     "262 conversions: every interleaving of the lives of two instances (create, feed, feed, flush, re-initialise, destroy; two kinds of lives), of a refused or abandoned creation with a life, every pair of conversions and every three of a kind under "
     "every interleaving of their feeds; each instance compared with itself alone; every conversion and every module in six kinds of surroundings (ordinary, removed directory, directory without permissions, standard descriptors closed, deep directory, "
     "directory and path changed afterwards) and with every number of descriptors left, and with many instances at once: directory, environment, descriptors, umask, locale, signals before and after every call; state = schedule, transition = one operation",
     lambda r: r.cpp("p17"), assumptions=["calls do not overlap: one thread at a time", "an instance may keep files open until it is destroyed"])
HARNESS["p15l"] = {"extra": "-rdynamic"}
prop("P15", "model_checking",
     "with address and undefined-behaviour sanitizers, every buffer allocated exactly: every transformation, encoder, filter and scorer (alone, in lists, with a fallback) on every single, pair and (of 19) triple of 92 hostile typed data "
     "(any type byte, no, short, long contents); every decoder on every one- and two-byte input and every three bytes of 38 classes; 262 conversions on every token sequence; each at once, datum by datum, left half-way, held back, re-initialised; "
     "every module with 20 argument keys times 22 missing, empty, malformed and excessive values, repeated, in pairs and next to well-formed ones; the table compiler on every source of up to 3 (4) tokens out of 18; the programs with every one and two of 24 arguments; data, inputs, arguments, strings, environment and table sources of every size around powers of two; "
     "then in the plain build the balance of the heap over the same (create, run or leave, destroy); every run ends within a time limit; state = (instance, input, way of feeding), transition = one call",
     lambda r: (r.cpp("p15", flavour="asan"), r.cpp("p15l", extra="-rdynamic")),
     assumptions=["ASan/UBSan report what goes outside a buffer by less than its red zone or onto freed memory", "codecs whose tables are not installed (CNS11643 ...) are reached through typed data only"])
prop("P18", "model_checking",
     "474 uses of REPLACE (every pattern of up to three of two data, longer overlapping ones, lists, chains), INSERT, SPLIT, NOBOM, STRINGS (7 filters, minimum lengths, what to put around), TRIM-WIDTH (-1 to 10, ambiguous as wide), UNIX/WIN/MAC/NL2BR and "
     "their compositions, AMBIGUOUS-PAD/-UNPAD, WHITESPACE-DERAIL/-RERAIL around other phases, BIG5-DEFRAG on every text of up to 5-9 (6-11) data over alphabets of what matters to them (marked, other types, other widths), in one call, datum by datum, with the flag "
     "apart; 19 of them on every code point in six surroundings; UPSIDEDOWN on every pair of its characters; padding switched at any place of every sequence of 6 (7) steps in eight conversions; texts, patterns and parameters of every size around powers of two; oracle: models written from the manual pages; state = (transformation, text)",
     lambda r: r.cpp("p18", data=golden("tables", "unidata", "sets")(r)), data=golden("tables", "unidata", "sets"),
     assumptions=["where white space goes when a phase in between made the text longer, what moves when no trail byte follows the control sequences after a lead byte, and widths of unassigned characters are not specified"])
prop("P19", "model_checking",
     "16 lists of the escape, entity, hex and notation decoders on every string of up to 6-7 of the 10-12 bytes that matter to them; 23 forms with every byte replaced, inserted, appended, cut, repeated; every decimal and hexadecimal number to 11FFFF, "
     "numbers and notations of up to 2,600 digits and of any size to 70,000 (1,100,000), every byte pair, every entity name in every capitalisation; 17 encoders and 1,038 option sets of ESCAPE on every code point, byte and other datum; every character and byte through encoder and decoder in "
     "the company of others, every named pair, any data through the notation and its lists; every sequence of 3 (4) data, calls and conversions through the logging codecs, and logs of every size; oracle: grammars of the forms, entity tables frozen and compared with HTML's; state = (codecs, input)",
     lambda r: r.cpp("p19", data=golden("tables")(r)), data=golden("tables"),
     assumptions=["FOR=UNICODE with MODE=OCT is no form the manual defines", "\\u and %u hold characters up to U+FFFF"])
