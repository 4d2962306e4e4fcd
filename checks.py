"""The runs behind each property: one harness, one set of bounds (compile-time defines) per run."""


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def lst(xs):
    return ",".join(q(x) for x in xs)


def R(name, h, lib=(), noreach=(), time=None, samples=None, **k):
    d = dict(name=name, h="h_%s.c" % h, D=["%s=%s" % (a, b) for a, b in k.items()], lib=list(lib))
    if noreach:
        d["noreach"] = list(noreach)
    if time:
        d["time"] = time
    if samples:
        d["samples"] = samples
    return d


REX = ["abc", "a*b", "a+b", "a?b", "[a-c]+", "[^a-c]+", "(ab)+", "(a|b)c", "ab|cd", "^ab$", "a{2}", "a{1,2}b", "a{2,}b", ".b", "x.y",
       "\\d+", "[0-9]{1,3}", "\\w+-\\d", "(a|bc)+d", "hello|world", "[a-zA-Z_]+", "\\.", "a\\*", "(?:ab)+c", "[^\\d]", "\\S+", "\\s*x",
       "(a(b|c))+", "[a\\-c]", "\\x\\x", "\\u\\l", "^(a|b)$", "\\p\\C", "a.*", "[abc]?d", "\\(a\\)", "(a)?b", "(a)*b", "((a)+b)+", "ab+c",
       "[\\d.]+", "\\W\\X", "\\A\\a", "\\P\\D", "\\c", "\\n", "\\t\\r", "\\f\\v", "[\\n\\f]+", "[\\t-\\n]", "[\\t-\\v]+", "[\\n-\\f]", "[\\t-\\r]x", "[!-\\.]+", "[+-\\]]", "\\ba\\b", "a\\b.b", "a\\Bb.c", "ab\\b\\s+c", "\\b\\w+\\b", "\\B\\sa", ".\\B.\\b", "\\B\\s*", "(a\\b|b\\B).*", "[\\t-\\t]a", "(a*b)cd", "(a*b*)cd", "(a+b+)c|d", "(a?b)c"]
COMPETING = [(".*b", "b", 1), (".+b", "b", 1), ("[a-c]*c", "c", 1), ("\\w+_\\d", "_", 1), (".*\\.t", ".", 1), ("(.*)-x", "-", 1), ("(.*)-(\\d+)", "-", 1), ("a.*b", "b", 2), ("(a|.)+b", "b", 1),
             (".{1,3}b", "b", 1), ("(?:[a-z.])*\\.c", ".", 1), ("[^:]*b:.*", "b", 1), ("(.+)=(.*)", "=", 1), ("(.*)b(c|d)", "b", 1), ("((.)*)b", "b", 1), ("^.*b$", "b", 1), (".*bcd", "b", 1), ("((a|b|c)*)b", "b", 1), ("(..)*b", "b", 1), ("(x.*)b", "b", 2), (".*(-x)", "-", 1), (".+(?:b)c", "b", 1), ("[a-z]*[b]", "b", 1), ("(.*)((b)c)", "b", 1), (".*b{1}", "b", 1), (".+b+", "b", 1), ("(.*b)cd", "b", 1), ("((.)+b)c", "b", 1), ("(.*b)c*", "b", 1), ("(.+b)[cd]", "b", 1)]
DATES = ["%Y", "%m/%d", "%H:%M", "%y", "%j", "%d %b", "%I%p", "%p", "%w%n%M", "%U-%W", "%S%%", "%a", "%e.%k", "%R", "%l%t%p", "%C%y", "%y%C", "%C",
         "%I%p%d", "%Ey", "%Od", "%EY%Om", "%E", "%f", "%", "%Ok", "%h"]
LONGDATES = ["%Y-%m-%d", "%H:%M:%S", "%D", "%T", "%x", "%X", "%d%b%Y", "%r", "%B", "%A"]
MODIFIED = ["%" + m + c for m in "EO" for c in "AaBbhCcDdeFgGHIjklMmnprRSsTtuUVwWXxYyZz%+"]
INTA = q("0xXbBoO-+1aFkKGm \\x0b").replace("\\\\x0b", "\\x0b")

DEC, HEX = "0123456789", "0123456789abcdefABCDEF"
INTSHAPES = [("", DEC, 1, 5, ()), ("2147483", DEC, 2, 4, ()), ("20971", DEC, 2, 3, ()), ("92233720368547758", DEC, 1, 4, ["accepted"]), ("184467440737095516", DEC, 1, 4, ["accepted"]),
             ("0Xfffffffffffff", HEX, 2, 4, ["accepted"]), ("0x7fffff", HEX, 1, 3, ()), ("0x", HEX, 1, 4, ()), ("0o17777777", "01234567", 2, 4, ()), ("0b1111111111111111111111111111", "01", 2, 5, ())]
SIZES = "1,7,8,15,16,17,31,32,33,63,64,65,127,128,129,200,255,256,257,300"
SIZES2 = "1,15,16,17,31,32,33,63,64,65,99,100,101,127,128,129,190,199,200,201,255,256,257,500,1000"


def dense(a, b):
    return ",".join(str(i) for i in range(a, b + 1))


CHECKS = {}


def C(pid, bounds, quick, thorough=(), assumptions=()):
    CHECKS[pid] = dict(bounds=bounds, quick=quick, thorough=quick + list(thorough), assumptions=list(assumptions))


NA = ["accepted"]
HN = ["remove", "change", "iterator goes on", "iterator remove"]
C("C01", "argument tables of up to 7 entries of every built-in kind (7 tables: option and positional, minimum counts, optional values, zero maxima); every command line of up to 2 arguments of up to 3 arbitrary non-NUL bytes (one to three shorter ones in the other runs), with and without a program name; at most 3 recorded errors; clusters and values of every length up to 257 and every number of arguments up to 256 in fixed shapes with arbitrary characters",
  [R("t%d" % t, "safety", TABLE=t, NARG=2, LEN=3, noreach=NA if t == 3 else ()) for t in range(7)]
  + [R("clusters", "parse", TABLE=0, NARG=1, LEN=5), R("many", "safety", TABLE=2, NARG=4, LEN=2, ALPHABET=q("-ab1/.x")), R("blocks", "many", MODE=0, BLOCK=5), R("longtexts", "many", MODE=4), R("every-argc", "many", MODE=6, SIZES=dense(1, 256), noreach=["rejected"]), R("every-length", "many", MODE=4, SIZES=dense(2, 257))],
  [R("t%d-long" % t, "safety", TABLE=t, NARG=1, LEN=6, noreach=NA if t == 3 else ()) for t in range(7)]
  + [R("t%d-three" % t, "safety", TABLE=t, NARG=3, LEN=2, noreach=NA if t == 3 else ()) for t in (0, 1, 2, 4, 5, 6)])
C("C02", "tables with limits 0..2 on every kind of entry, option and positional; command lines of up to 4 arguments of up to 3 bytes over the characters the table distinguishes, of up to 3 arguments of up to 3 arbitrary bytes; full storage for 1..6 values per entry; limits of 15..64 (thorough: ..300) with one less, exactly or one more value",
  [R("minimum7", "safety", TABLE=7, NARG=3, LEN=3, ALPHABET=q("-dt01")), R("minimum8", "safety", TABLE=8, NARG=3, LEN=3, ALPHABET=q("-aifx7")), R("minimum9", "safety", TABLE=9, NARG=4, LEN=3, ALPHABET=q("-sx")), R("minimum-free", "safety", TABLE=3, NARG=2, LEN=3, noreach=NA), R("zero", "safety", TABLE=5, NARG=2, LEN=3, noreach=()),
   R("positional", "safety", TABLE=6, NARG=3, LEN=2), R("mixed", "parse", TABLE=2, NARG=3, LEN=3), R("sequence", "parse", TABLE=6, NARG=4, LEN=2), R("storage", "life", MODE=2), R("limits", "parse", TABLE=10, NARG=4, LEN=2, ALPHABET=q("-va1")), R("kinds", "parse", TABLE=9, NARG=2, LEN=3), R("counts", "many", MODE=1, SIZES="15,16,17,31,32,33,64")],
  [R("counts-every", "many", MODE=1, SIZES=dense(3, 64)), R("counts-more", "many", MODE=1, SIZES="65,127,128,129,255,256,257,300"), R("limits-free", "parse", TABLE=10, NARG=2, LEN=3), R("minimum8-4", "safety", TABLE=8, NARG=4, LEN=3, ALPHABET=q("-aifx7")), R("zero3", "safety", TABLE=5, NARG=3, LEN=3, ALPHABET=q("-aisdftr1")), R("minimum-free4", "safety", TABLE=3, NARG=2, LEN=4, noreach=NA), R("mixed4", "parse", TABLE=2, NARG=4, LEN=2)])
C("C03", "tables with short, long, valued and positional entries; end entries with room for 1, 2, 3 and 8 errors; command lines of up to 3 arguments of up to 4 arbitrary bytes; every number of errors from 4 to 130 on one command line",
  [R("room1", "parse", TABLE=0, NARG=3, LEN=2, MAXERR=1, WANT_LIMIT=1), R("room2", "parse", TABLE=2, NARG=3, LEN=3, MAXERR=2, WANT_LIMIT=1), R("room3", "parse", TABLE=4, NARG=2, LEN=4, MAXERR=3, WANT_LIMIT=1),
   R("room8", "parse", TABLE=5, NARG=3, LEN=2), R("long", "parse", TABLE=1, NARG=2, LEN=4, MAXERR=2, WANT_LIMIT=1, noreach=["too many errors"]), R("many", "many", MODE=5, WANT_LIMIT=1, SIZES=dense(4, 130), noreach=["accepted", "accepted with arguments"])],
  [R("room1-long", "parse", TABLE=4, NARG=2, LEN=5, MAXERR=1, WANT_LIMIT=1), R("room2-four", "parse", TABLE=2, NARG=4, LEN=2, MAXERR=2, WANT_LIMIT=1)])
C("C04", "tables with switches, aliases, string and integer options and the same letter in two entries; every command line of up to 2 arguments of up to 4 arbitrary bytes, 3 of up to 2, and one of up to 6; clusters and values of up to 300 characters; tables of 62 entries, and of 64 entries that use nearly every character as an option letter; entries with every number of letters from 1 to 62",
  [R("two", "parse", TABLE=0, NARG=2, LEN=4), R("three", "parse", TABLE=0, NARG=3, LEN=2), R("cluster", "parse", TABLE=0, NARG=1, LEN=6), R("duplicate", "parse", TABLE=4, NARG=2, LEN=3), R("kinds", "parse", TABLE=9, NARG=2, LEN=3), R("long", "many", MODE=4), R("entries", "many", MODE=2), R("letters", "many", MODE=2, ENTRIES=64, ALLLETTERS=1), R("group", "many", MODE=7, FORM=0, SIZES=dense(1, 62))],
  [R("duplicate5", "parse", TABLE=4, NARG=2, LEN=5), R("cluster7", "parse", TABLE=0, NARG=1, LEN=7)])
C("C05", "tables whose long names are prefixes and aliases of each other; every command line of up to 2 arguments of up to 6 arbitrary bytes, and one of up to 9; names of every length from 3 to 258 (and 300); tables of 120 entries; entries with up to 129 aliases",
  [R("two", "parse", TABLE=1, NARG=2, LEN=6), R("one", "parse", TABLE=1, NARG=1, LEN=9), R("nested", "parse", TABLE=4, NARG=2, LEN=4), R("valued", "parse", TABLE=4, NARG=1, LEN=7), R("shared", "parse", TABLE=8, NARG=2, LEN=5), R("shared1", "parse", TABLE=8, NARG=1, LEN=7), R("sorts", "parse", TABLE=11, NARG=2, LEN=4), R("names", "many", MODE=3), R("every-name", "many", MODE=3, SIZES=dense(3, 258)), R("entries", "many", MODE=2, ENTRIES=120), R("aliases", "many", MODE=7, FORM=2, SIZES="1,2,3,7,8,9,15,16,17,31,32,33,63,64,65,99,128,129")],
  [R("nested5", "parse", TABLE=4, NARG=2, LEN=5), R("three", "parse", TABLE=1, NARG=3, LEN=4), R("eleven", "parse", TABLE=1, NARG=1, LEN=11)])
C("C06", "tables with one to three positional entries; every command line of up to 4 arguments of up to 2 arbitrary bytes or 3 of up to 3, with POSIXLY_CORRECT unset, set, and set to nothing; blocks of up to 9 options and positionals in any interleaving of blocks; two or three blocks of 10 to 65 positionals and as many options, one more or one less",
  [R("three", "parse", TABLE=5, NARG=3, LEN=2, POSIX=1), R("sequence", "parse", TABLE=6, NARG=4, LEN=2, POSIX=1), R("minimum", "parse", TABLE=2, NARG=3, LEN=3, POSIX=1), R("options", "parse", TABLE=0, NARG=3, LEN=2, POSIX=1), R("kinds", "parse", TABLE=9, NARG=2, LEN=2, POSIX=1), R("blocks", "many", MODE=0, BLOCK=9), R("large-blocks", "many", MODE=6, BLOCKS=1, SIZES="10,11,12,13,15,16,17,24,31,32,33,47,48,49,63,64,65", noreach=["rejected"])],
  [R("five", "parse", TABLE=6, NARG=5, LEN=2, POSIX=1), R("four", "parse", TABLE=5, NARG=4, LEN=2, POSIX=1)])
C("C07", "two entries with optional values (string, integer), a switch and positionals; every command line of up to 3 arguments of up to 3 arbitrary bytes; optional values on every kind of entry for 2 arguments of up to 3 bytes",
  [R("three", "parse", TABLE=3, NARG=3, LEN=3), R("one", "parse", TABLE=3, NARG=1, LEN=6), R("kinds", "safety", TABLE=4, NARG=2, LEN=3), R("kinds1", "safety", TABLE=4, NARG=1, LEN=6), R("every", "parse", TABLE=7, NARG=2, LEN=4), R("every3", "parse", TABLE=7, NARG=3, LEN=2), R("limits", "parse", TABLE=10, NARG=3, LEN=3, ALPHABET=q("-va1"))],
  [R("two", "parse", TABLE=3, NARG=2, LEN=6)])
C("C08", "five tables covering every kind of entry, with required and optional values; every pair of command lines of up to 2 arguments of up to 4 arbitrary bytes (3 arguments of up to 2 bytes over an alphabet), POSIXLY_CORRECT unset, set or set to nothing for each parse; four further tables compared with the reference parser after an arbitrary earlier parse; one table after up to 255 parses of one command line and one of another",
  [R("a", "reparse", TABLE=0), R("posix", "reparse", TABLE=0, NA=2, NB=1, LA=2, LB=2, POSIX=1), R("b", "reparse", TABLE=1, noreach=["earlier parse succeeded"]), R("c", "reparse", TABLE=2, LA=4, LB=4),
   R("optional", "reparse", TABLE=3, LA=4, LB=4), R("dates", "reparse", TABLE=4, LA=4, LB=4),
   R("many", "reparse", TABLE=2, NA=2, NB=3, LA=2, LB=2, ALPHABET=q("-oax7"), POSIX=1),
   R("before0", "parse", TABLE=0, NARG=3, LEN=2, PARG=2, PLEN=2, PREPARSE=1, ALPHABET=q("-a1")), R("before3", "parse", TABLE=3, NARG=2, LEN=3, PARG=1, PLEN=3, PREPARSE=1), R("before7", "parse", TABLE=7, NARG=1, LEN=3, PARG=1, PLEN=3, PREPARSE=1), R("before10", "parse", TABLE=10, NARG=2, LEN=2, PARG=2, PLEN=2, PREPARSE=1, ALPHABET=q("-v1")), R("often", "parse", TABLE=0, NARG=2, LEN=2, PARG=1, PLEN=2, PREPARSE=1, ALPHABET=q("-ao"), TIMES="1,2,3,7,16,255")],
  [R("two", "reparse", TABLE=0, NA=2, NB=2, LA=2, LB=2), R("many-other", "reparse", TABLE=0, NA=3, NB=2, LA=2, LB=2, ALPHABET=q("-ais7"), POSIX=1)])
C("C09", "every text of up to 5 arbitrary bytes; up to 7 bytes over the alphabet of digits, prefixes, signs, suffixes and blanks; values around the limits of int in every base and suffix; texts of up to 300 characters (thorough: every length from 8 to 256)",
  [R("any", "int", LEN=5), R("alphabet", "int", MINLEN=6, LEN=7, ALPHABET=INTA)]
  + [R("shape%d" % i, "int", SHAPE=1, BASE=q(b), DIGITS=q(dig), ND_MIN=lo, ND_MAX=hi, noreach=no) for i, (b, dig, lo, hi, no) in enumerate(INTSHAPES)]
  + [R("long", "int", PADS="8,20,21,22,23,24,30,31,32,33,63,64,65,100,127,128,129,255,256,257,300")],
  [R("any6", "int", LEN=6), R("every-length", "int", PADS=dense(8, 256))])
C("C10", "every text of up to 6 arbitrary bytes; up to 8 bytes over the characters of number notation; known values compared bit for bit; texts padded with blanks or digits in every quantity from 1 to 256 (and 257, 300) around two arbitrary characters",
  [R("any", "dbl", LEN=6), R("known", "dbl", KNOWN=1), R("alphabet", "dbl", MINLEN=7, LEN=8, ALPHABET=q("0x.e+-p1fin")), R("long", "dbl", PADS=SIZES), R("every-length", "dbl", PADS=dense(1, 256))],
  [R("any8", "dbl", LEN=8)])
C("C11", "every text of up to 6 arbitrary bytes, and 9 bytes over '.', '/' and a letter; paths padded in every quantity from 1 to 256 (and 257, 300) around four arbitrary characters; up to 3 paths of up to 3 characters given to an option and a positional entry, in two parses",
  [R("any", "file", LEN=6), R("several", "file", SEVERAL=3, LEN=3, ALPHABET=q("./a")), R("nine", "file", MINLEN=9, LEN=9, ALPHABET=q("./a")), R("long", "file", PADS=SIZES), R("every-length", "file", PADS=dense(1, 256))],
  [R("any8", "file", LEN=8), R("eleven", "file", MINLEN=10, LEN=11, ALPHABET=q("./a"))])
C("C12", "27 formats and all combinations of a modifier and a conversion on every text of up to 5 arbitrary bytes, 10 composite formats on texts of 4 to 10 bytes, %c and %r on texts of 11 to 17 characters, every format of up to 4 bytes on texts of up to 3; formats and texts padded in every quantity from 1 to 256 (and 257, 300) around a conversion; two values for each of two entries of 4 formats, parsed three times",
  [R("formats", "date", FORMATS=lst(DATES), LEN=5), R("long", "date", FORMATS=lst(LONGDATES), MINLEN=9, LEN=10), R("eight", "date", FORMATS=lst(LONGDATES), MINLEN=7, LEN=8), R("middle", "date", FORMATS=lst(LONGDATES + ["%a", "%h", "%c"]), MINLEN=4, LEN=6), R("modifiers", "date", FORMATS=lst(MODIFIED), LEN=5), R("modifiers8", "date", FORMATS=lst(["%EX", "%Ex", "%ED", "%ET", "%OX", "%Ox", "%OD", "%OT", "%EA", "%OA"]), MINLEN=8, LEN=8), R("all", "date", FORMATS=lst(["%c", "%Ec", "%Oc", "%r", "%Er", "%Or"]), MINLEN=11, LEN=17, ALPHABET=q("1/: aApPmM")), R("any2", "date", LEN=3, FLEN=2), R("any4", "date", LEN=2, FLEN=4), R("padded", "date", PADS=SIZES), R("pair", "date", PAIR=1, LEN=3, ALPHABET=q("19aPm"), FORMATS=lst(["%p", "%I%p", "%C", "%y"])), R("every-length", "date", PADS=dense(1, 256))],
  [R("formats7", "date", FORMATS=lst(DATES), LEN=7), R("any4-3", "date", LEN=3, FLEN=4)])
C("C13", "%d patterns covering every construct, case-sensitive and not, on every value of up to 4 arbitrary bytes; %d patterns in which a repetition competes with what follows it, on values of up to 5; patterns of 18 shapes with every number from 1 to 65 (and 127, 129, 200, 256, 257, 300) of characters, repetitions, alternatives, groups, nested groups or class members, and up to 3000 repetitions, on values with one arbitrary character; two values for each of two entries, parsed three times" % (len(REX), len(COMPETING)),
  [R("patterns", "rex", MODE=0, PATTERNS=lst(REX), TLEN=4), R("competing", "rex", MODE=2, FLAGS=0, TLEN=5, COMPETING=",".join("{%s,'%s',%d}" % (q(p), c, n) for p, c, n in COMPETING)), R("long", "rexlong", SIZES=dense(1, 65)), R("longer", "rexlong", SIZES="127,129,200,256,257,300"), R("pair", "rex", MODE=4, LEN=2, PATTERNS=lst(["[a-c]+", "\\d", "(a|b)c", ".B", "x?"])), R("repeats", "rexlong", REPEATS=1, SIZES="511,512,513,999,1000,1001,1024,1025,2048,2500,3000")],
  [R("competing7", "rex", MODE=2, FLAGS=0, TLEN=7, COMPETING=",".join("{%s,'%s',%d}" % (q(p), c, n) for p, c, n in COMPETING)), R("patterns6", "rex", MODE=0, PATTERNS=lst(REX), TLEN=6)])
MALFORMED = ['(a', '(', 'a)', '[a', '[', '[]', '[]a', '[c-a]', '[c-ab]', '[ac-b]', '[b-a-]', 'a{', 'a{x}', 'a{2', 'a{2,', 'a{2,x}', 'a**', 'a+*', 'a?+', 'a{,2}', '[a-', '(?a)', '(?:a', '(a(b)', '[^]', '[^', '[^c-a]', '\\', 'a\\', '[\\', '[a-\\', '()', 'a()', 'a|', 'a{70000}', 'a{1,70000}', 'a{65536}', '[\\d-z]', '((a)', '(a|b', 'a[b', '(a[)]']
C("C14", "every pattern of up to 4 arbitrary bytes, of 5 and 6 bytes over the operators, on every value of up to 3 bytes; %d malformed patterns on every value of up to 3 bytes" % len(MALFORMED),
  [R("malformed", "rex", MODE=3, PATTERNS=lst(MALFORMED), TLEN=3), R("any3", "rex", MODE=1, PMIN=0, PLEN=3, TLEN=2), R("any4", "rex", MODE=1, PMIN=4, PLEN=4, TLEN=2, FLAGS=0),
   R("groups", "rex", MODE=1, PMIN=5, PLEN=5, TLEN=3, FLAGS=0, ALPHABET=q("ab*(|)?.$+"), TALPHABET=q("ab")),
   R("classes", "rex", MODE=1, PMIN=6, PLEN=6, TLEN=2, FLAGS=0, ALPHABET=q("ab[]^-{}1,0"), TALPHABET=q("abc"))],
  [R("any5", "rex", MODE=1, PMIN=5, PLEN=5, TLEN=2, FLAGS=0), R("groups7", "rex", MODE=1, PMIN=6, PLEN=7, TLEN=3, FLAGS=0, ALPHABET=q("ab*(|)?"), TALPHABET=q("ab"))])
C("C15", "one failing entry of every kind and naming style with values of up to 3 arbitrary bytes; up to 4 command-line errors of 6 sorts with 1 to 4 error slots; values, option names and program names of every length up to 256 (and 257, 500, 1000); 40 errors in one report",
  [R("counts", "errors", SCENE=0), R("values", "errors", SCENE=1), R("several", "errors", SCENE=2, VLEN=2), R("long", "errors", SCENE=3, LENS=SIZES2), R("every-length", "errors", SCENE=3, LENS=dense(1, 256)), R("many", "errors", SCENE=4, COUNT=40)],
  [R("counts5", "errors", SCENE=0, VLEN=5), R("values5", "errors", SCENE=1, VLEN=5)])
LONGTEXTS = dense(1, 247) + ",257,300,500,1000"
LT = ["mandatory switches", "names on a line of their own"]
C("C16", "tables of 1 to 3 entries of every kind, naming style and limit; option letters arbitrary bytes; texts of every length up to 256, so beyond the 200-byte buffers, and up to 256 letters or aliases of one entry; suffixes of every length up to 247 (and up to 1000); every minimum up to 40 (and up to 129) and ranges of up to 1000; tables of 32 entries",
  [R("one", "syntax", MODE=0, N=1, WIDE=1), R("two", "syntax", MODE=0, N=2), R("three", "syntax", MODE=0, N=3, FEW=1), R("option", "syntax", MODE=1), R("long", "syntax", MODE=4), R("every-option", "syntax", MODE=1, EVERY=dense(1, 256)), R("every-length", "syntax", MODE=4, EVERY=dense(1, 256)), R("table", "syntax", MODE=5, N=32, BIG=1), R("suffixes", "syntax", MODE=6, EVERY=LONGTEXTS, N=2, BIG=1, noreach=LT), R("limits", "syntax", MODE=7, N=1, BIG=1, LOS=dense(0, 40) + ",63,64,65,99,100,127,128,129", noreach=LT)],
  [R("three-all", "syntax", MODE=0, N=3)])
C("C17", "tables of 1 and 2 entries of every kind and naming style, with descriptions of up to 3 arbitrary bytes, four column formats, texts of every length up to 256, up to 256 letters or aliases of one entry, descriptions of every length up to 247 (and up to 1000), and tables of 32 entries",
  [R("one", "syntax", MODE=2, N=1), R("two", "syntax", MODE=2, N=2), R("gnu1", "syntax", MODE=3, N=1, WIDE=1), R("gnu2", "syntax", MODE=3, N=2, FEW=1, GLEN=1), R("long", "syntax", MODE=4), R("every-length", "syntax", MODE=4, EVERY=dense(1, 256)), R("table", "syntax", MODE=5, N=32, BIG=1), R("descriptions", "syntax", MODE=6, EVERY=LONGTEXTS, N=2, BIG=1, noreach=LT)],
  [R("gnu2-all", "syntax", MODE=3, N=2), R("gnu2-few", "syntax", MODE=3, N=2, FEW=1)])
C("C18", "every text of up to 6 arbitrary bytes (7 at width 3, 9 at width 5) in columns of width 1 to 5, indented by 0 to 2; texts of up to 470 characters in columns of width 20 to 80, with arbitrary characters at the end of the first or second line; every length of text up to 256 in widths 20, 52 and 79, from 90 in widths 100, 132 and 200",
  [R("any", "wrap", LEN=6), R("w3", "wrap", MINLEN=7, LEN=7, WMIN=3, WMAX=3), R("w5", "wrap", MINLEN=9, LEN=9, WMIN=5, WMAX=5, LMAX=0), R("columns", "wrap", WIDTHS="20,52,79,80", LMAX=1, noreach=["blank text"]), R("every-length", "wrap", WIDTHS="20,52,79", LMAX=1, TOTALS=dense(1, 256)), R("wide", "wrap", WIDTHS="100,132,200", LMAX=1, TOTALS=dense(90, 256 - 3) + ",300,470", noreach=["blank text"])],
  [R("w4", "wrap", MINLEN=8, LEN=9, WMIN=4, WMAX=4), R("w6", "wrap", MINLEN=10, LEN=11, WMIN=6, WMAX=6, LMAX=1)])
C("C19", "every sequence of up to 4 operations on texts of up to 2 arbitrary bytes; of up to 3 operations on texts of the lengths around the internal sizes; single operations and formatted texts of every length up to 256; texts of up to 66000 characters; 1500 single-character appends; the same text set again",
  [R("short", "dstr", MODE=1, OPS=3), R("short4", "dstr", MODE=1, OPS=4), R("sizes2", "dstr", MODE=0, OPS=2, LENS="0,1,98,99,100,101,198,199,200,201,202,260,499,500,501"), R("sizes3", "dstr", MODE=0, OPS=3, LENS="1,99,100,199,200,201,300"), R("formatted", "dstr", MODE=2), R("every-format", "dstr", MODE=2, FLENS=dense(0, 255)), R("every-length", "dstr", MODE=0, OPS=1, LENS=dense(1, 256), noreach=["shortened", "same text again"]), R("again", "dstr", MODE=0, OPS=3, LENS="3,250"), R("big", "dstr", MODE=0, OPS=2, LENS="1023,4095,12000,33000,66000", RS_MAX=140000, LIMIT=1000000000), R("appends", "dstr", MODE=3, TOTAL=1500, LIMIT=100000000)],
  [R("sizes3-all", "dstr", MODE=0, OPS=3, LENS="0,1,98,99,100,101,198,199,200,201,202,260,499,500,501"), R("short5", "dstr", MODE=1, OPS=5), R("big3", "dstr", MODE=0, OPS=3, LENS="1000,5000", RS_MAX=20000, LIMIT=100000000)])
C("C20", "every sequence of up to 3 operations on 2 or 3 keys, any 32-bit hash values of the keys (2 or 3 classes), on tables holding 0, 33, 62, 125 and 252 other entries (so that they grow); chains of up to 8 entries in one bucket, any of them removed while iterating",
  [R("symbolic", "hash", HV=2, KEYS=2, OPS=3), R("three", "hash", HV=3, KEYS=3, OPS=3, CONC=1), R("grow33", "hash", PRE=33, KEYS=3, OPS=3, HV=3, CONC=1), R("grow62", "hash", PRE=62, STRIDE=53, KEYS=2, OPS=3, HV=4, CONC=1),
   R("grow125", "hash", PRE=125, STRIDE=97, KEYS=2, OPS=3, HV=2, CONC=1), R("grow252", "hash", PRE=252, KEYS=2, OPS=3, HV=2, CONC=1), R("grow252w", "hash", PRE=252, STRIDE=193, KEYS=2, OPS=2, HV=3, CONC=1), R("grow33s", "hash", PRE=33, KEYS=2, OPS=2, HV=2),
   R("chain", "hash", PRE=6, KEYS=1, OPS=2, HV=2, CONC=1, STRIDE=0, EACH=1, FIRST=4, noreach=HN), R("chain53", "hash", PRE=7, KEYS=1, OPS=2, HV=2, CONC=1, STRIDE=53, EACH=1, FIRST=4, noreach=HN), R("chain2", "hash", PRE=5, KEYS=2, HV=2, CONC=1, OPS=2, EACH=1, STRIDE=0, noreach=HN)],
  [R("three-symbolic", "hash", HV=3, KEYS=3, OPS=3), R("size53", "hash", MINSIZE=53, HV=2, KEYS=2, OPS=3), R("many", "hash", HV=60, KEYS=2, OPS=2, CONC=1, noreach=["iterator goes on"])])
C("C21", "every sequence of up to 3 operations on 5 names (two with equal hashes, an empty one, one of the greatest length, a symbolic one); registries of up to 131 commands; names of 15 to 99 characters that differ in one character, or in two that leave the hash unchanged; descriptions of every length up to 255",
  [R("two", "cmd", OPS=2), R("grow", "cmd", OPS=2, PRE=33), R("grow64", "cmd", OPS=1, PRE=64, noreach=["registered again", "unregistered", "dispatched", "iterator search", "wrapped"]), R("grow126", "cmd", OPS=1, PRE=126, noreach=["registered again", "unregistered", "dispatched", "iterator search", "wrapped"]), R("names", "cmd", OPS=2, LONGN="15,16,32,33,64,99"), R("descriptions", "cmd", OPS=1, DESCN=dense(0, 255), noreach=["registered again", "unregistered", "dispatched", "iterator search", "wrapped"]), R("described", "cmd", OPS=2, DESCN="1,16,64,99,100,128,254"), R("three", "cmd", OPS=3)],
  [])
C("C22", "any single allocation failing while 14 scenarios (every constructor, parsing and re-parsing every kind of value, long tables and command lines, reporting, printing, help messages, strings, maps, commands, sorting, an arbitrary command line of up to 3 bytes) run, default and installed panic functions",
  [R("default", "alloc", HANDLER=0), R("installed", "alloc", HANDLER=1)],
  [R("default5", "alloc", HANDLER=0, LEN=5), R("installed5", "alloc", HANDLER=1, LEN=5)])
C("C23", "every constructor with symbolic names, types and limits (0..5); tables of 6 slots with any of them missing; 0..6 values stored in entries of every kind; every maximum from 1 to 249 (and up to 1000); tables of every length up to 249 (and 300), complete or with one entry missing",
  [R("constructors", "life", MODE=0), R("release", "life", MODE=1), R("storage", "life", MODE=2), R("large", "life", MODE=3, SIZES=dense(1, 249) + ",255,256,257,300,1000"), R("tables", "life", MODE=4, SIZES=dense(0, 249) + ",300")],
  [])
C("C24", "two options and a positional written by the application, any callback absent, every return value symbolic; a second positional entry, optional values and headers standing for other entries, up to 3 arguments, 1 to 3 error slots",
  [R("two", "custom", NARG=2, noreach=["limit"]), R("three", "custom", NARG=3, noreach=["limit"]), R("room1", "custom", NARG=3, ROOM=1, noreach=["several errors"]), R("room2", "custom", NARG=3, ROOM=2), R("more", "custom", NARG=2, MORE=1, noreach=["limit"]), R("more3", "custom", NARG=3, MORE=1)],
  [R("four", "custom", NARG=4)])
C("C25", "module names, tags, command names and descriptions of up to 1 arbitrary byte, set up to twice; help asked for not at all, once or twice, invalid values given or not, required argument given or not, command registered or not; each of these texts of 16 to 256 characters",
  [R("one", "help", NLEN=1), R("long", "help", LENS="16,100,200,256")],
  [R("two", "help", NLEN=2), R("longer", "help", LENS="1,15,16,17,31,32,33,64,65,99,100,128,190,199,200,201,255,256,500", time=1500)])
C("C26", "arrays of up to 6 elements of 1, 2, 8, 33, 100, 300 and 1100 bytes with arbitrary keys, any sub-range, both orders; of 8 to 60 (thorough: 130) elements with one or two arbitrary keys among fixed ones, and of every size to 66 and up to 240 with one",
  [R("two", "sort", REVERSE=0, N=5), R("bytes", "sort", REVERSE=1, N=6, WIDTH=1), R("wide", "sort", REVERSE=0, N=5, WIDTH=8), R("wide33", "sort", REVERSE=0, N=4, WIDTH=33), R("wide100", "sort", REVERSE=1, N=4, WIDTH=100), R("wide300", "sort", REVERSE=0, N=3, WIDTH=300), R("twenty", "sort", REVERSE=0, N=20, SYMK=1), R("sixty", "sort", REVERSE=1, N=60, SYMK=1, WIDTH=4), R("nine", "sort", REVERSE=0, N=9, SYMK=2), R("large", "sort", REVERSE=0, N=250, SYMK=1, WIDTH=4, SIZES=dense(8, 66) + ",100,127,128,129,130,150,200,240"), R("wide1100", "sort", REVERSE=0, N=3, WIDTH=1100)],
  [R("sixteen", "sort", REVERSE=1, N=16, SYMK=2), R("hundred", "sort", REVERSE=0, N=130, SYMK=1, WIDTH=2), R("seven", "sort", REVERSE=0, N=7, WIDTH=2)])
C("C27", "one set of letters and 12 long names (abbreviations, clashes, both kinds of result, every kind of value), with each leading '+', '-' and ':', POSIXLY_CORRECT set or not, both ways of restarting, after an earlier scan of up to 4 steps; every command line of up to 3 arguments of up to 3 arbitrary bytes (getopt), 2 of up to 3 or one of up to 6 (getopt_long), 2 of up to 4 (getopt_long_only)",
  [R("getopt", "getopt", MODE=0, NARG=3, LEN=3, noreach=["long name"]), R("long", "getopt", MODE=1, NARG=2, LEN=3), R("long6", "getopt", MODE=1, NARG=1, LEN=6, noreach=["separate"]), R("names", "getopt", MODE=1, NARG=2, LEN=5, STYLES=2, ALPHABET=q("-abxz="), noreach=["missing", "separate"]), R("order", "getopt", MODE=1, NARG=5, LEN=2, STYLES=5, ALPHABET=q("-xy"), noreach=["long name", "unknown letter", "attached"]),
   R("again", "getopt", MODE=1, NARG=2, LEN=2, BEFORE=1, noreach=["long name", "attached"]), R("only", "getopt", MODE=2, NARG=2, LEN=4, STYLES=3, noreach=["unknown letter", "attached"]), R("only6", "getopt", MODE=2, NARG=1, LEN=6, noreach=["unknown letter", "attached", "separate"])],
  [R("long3", "getopt", MODE=1, NARG=3, LEN=3), R("long5", "getopt", MODE=1, NARG=2, LEN=5, STYLES=2), R("again3", "getopt", MODE=1, NARG=2, LEN=3, BEFORE=1), R("getopt4", "getopt", MODE=0, NARG=3, LEN=4, noreach=["long name"]), R("only3", "getopt", MODE=2, NARG=3, LEN=3, noreach=["unknown letter", "attached"])],
  ["a '-' inside a group of option letters, the letters ':' and '?', \"W;\" and the text of the messages are not specified"])
