From 35a79ebd983544bfb7ee8fc7d9411ec661a2171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:54 +0000
Subject: [PATCH 01/27] fix: getopt: consume a short-option cluster ending in
 '-' instead of rescanning it forever

---
 src/arg_getopt_long.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..4eb3689 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -529,8 +529,10 @@ start:
 #endif
 		if (*place == '-') {
 			place++;		/* --foo long option */
-			if (*place == '\0')
+			if (*place == '\0') {
+				++optind;		/* consume it, or we never get past it */
 				return (BADARG);	/* malformed option */
+			}
 #ifdef GNU_COMPATIBLE
 			dash_prefix = DD_PREFIX;
 #endif
-- 
2.43.0


From b37786e6cb21b571e3b7707212fba4bf0d23a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:19 +0000
Subject: [PATCH 02/27] fix: arg_int: require a digit right after a 0x/0o/0b
 prefix

---
 src/arg_int.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arg_int.c b/src/arg_int.c
index 9d760c9..b1b8d99 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,6 +95,12 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
+    /* a digit must follow: strtol() would also skip white space, a second sign or a second prefix */
+    if (!isxdigit((int)(unsigned char)(*ptr)) || (*ptr == '0' && toupper(ptr[1]) == toupper(X))) {
+        *endptr = str;
+        return 0;
+    }
+
     /* attempt conversion on remainder of string using strtol() */
     val = strtol(ptr, (char**)endptr, base);
     if (*endptr == ptr) {
-- 
2.43.0


From a5b436ea1d92e5e1c0430de17496fa3f34f908d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:27 +0000
Subject: [PATCH 03/27] fix: arg_rex: refuse the value instead of crashing when
 the pattern does not compile

arg_rexn() logs an invalid pattern and returns the entry, so the parser reached
trex_match(NULL, ...) for every value given to it.
---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..e74586d 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,7 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        is_match = rex ? trex_match(rex, argval) : TRex_False; /* a pattern that does not compile matches nothing */
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From ee2f07f9c86863305e8e2b9f488f5bd2ce35b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:27 +0000
Subject: [PATCH 04/27] fix: arg_rex: allocate room for the first node of an
 empty pattern

An empty pattern started with zero nodes, doubled to zero, and wrote the first
node outside the block.
---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index e74586d..e8fb790 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -904,7 +904,7 @@ TRex* trex_compile(const TRexChar* pattern, const TRexChar** error, int flags) {
     TRex* exp = (TRex*)xmalloc(sizeof(TRex));
     exp->_eol = exp->_bol = NULL;
     exp->_p = pattern;
-    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar));
+    exp->_nallocated = (int)((scstrlen(pattern) + 1) * sizeof(TRexChar));
     exp->_nodes = (TRexNode*)xmalloc((size_t)exp->_nallocated * sizeof(TRexNode));
     exp->_nsize = 0;
     exp->_matches = 0;
-- 
2.43.0


From dd3d78abf33992b8e25382903b6461cbcb003dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:27 +0000
Subject: [PATCH 05/27] fix: arg_rex: reject a pattern that ends in a backslash

The escape consumed the terminator and compilation went on reading behind the
pattern.
---
 src/arg_rex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index e8fb790..cb4dae0 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -416,6 +416,9 @@ static TRexChar trex_escapechar(TRex* exp) {
             case 'f':
                 exp->_p++;
                 return '\f';
+            case '\0':
+                trex_error(exp, _SC("letter expected"));
+                /* fall through */
             default:
                 return (*exp->_p++);
         }
@@ -480,6 +483,8 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
                 }
                 /* fall through */
             default:
+                if (*exp->_p == '\0')
+                    trex_error(exp, _SC("letter expected"));
                 t = *exp->_p;
                 exp->_p++;
                 return trex_newnode(exp, t);
-- 
2.43.0


From 4379385ab765de8c23ef50046d42f8a96b2b0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 06/27] fix: arg_rex: do not match beyond the end of the value

'.', negated classes and \\W \\S \\D \\X \\C \\P \\A accepted the terminating NUL as a
character and the rest of the pattern went on reading behind the value (x.y on
"x"); \\b and \\B read the bytes before and behind an empty value.
---
 src/arg_rex.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index cb4dae0..d1ef275 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -860,8 +860,9 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && str != exp->_bol && !isspace((int)(*(str - 1)))) ||
+                (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
+                (str != exp->_eol && isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
@@ -873,12 +874,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             if (str == exp->_eol)
                 return str;
             return NULL;
-        case OP_DOT: {
+        case OP_DOT:
+            if (str >= exp->_eol)
+                return NULL;
             str++;
-        }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str >= exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -886,6 +890,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str >= exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
-- 
2.43.0


From e96e35dfecceaaf263ced6738c44359fe8c349d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 07/27] fix: arg_rex: compare the ends of a range, not a node
 number with a character

The check rejected valid classes late in a long pattern ([0-9] after some fifty
nodes) and never rejected [z-a].
---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index d1ef275..862451f 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -514,12 +514,12 @@ static int trex_class(TRex* exp) {
             if (*exp->_p++ == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
-            if (first > *exp->_p)
-                trex_error(exp, _SC("invalid range"));
             if (exp->_nodes[first].type == OP_CCLASS)
                 trex_error(exp, _SC("cannot use character classes in ranges"));
             exp->_nodes[r].left = exp->_nodes[first].type;
             t = trex_escapechar(exp);
+            if (exp->_nodes[first].type > t)
+                trex_error(exp, _SC("invalid range"));
             exp->_nodes[r].right = t;
             exp->_nodes[chain].next = r;
             chain = r;
-- 
2.43.0


From 4535c57a670fe36b3841519a1158014a754807d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 08/27] fix: arg_rex: reject repetition counts that do not fit

Counts are kept in 16 bits: {65536} silently became {0}, ten digits overflowed
int, and counts above 32767 were shifted into the sign bit.
---
 src/arg_rex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 862451f..aa01dcf 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -549,13 +549,11 @@ static int trex_class(TRex* exp) {
 
 static int trex_parsenumber(TRex* exp) {
     int ret = *exp->_p - '0';
-    int positions = 10;
     exp->_p++;
     while (isdigit((int)(*exp->_p))) {
         ret = ret * 10 + (*exp->_p++ - '0');
-        if (positions == 1000000000)
+        if (ret > 0xFFFF)
             trex_error(exp, _SC("overflow in numeric constant"));
-        positions *= 10;
     };
     return ret;
 }
@@ -647,7 +645,7 @@ static int trex_element(TRex* exp) {
         if (isgreedy) {
             int nnode = trex_newnode(exp, OP_GREEDY);
             exp->_nodes[nnode].left = ret;
-            exp->_nodes[nnode].right = ((p0) << 16) | p1;
+            exp->_nodes[nnode].right = (int)(((unsigned int)p0 << 16) | p1);
             ret = nnode;
         }
     }
-- 
2.43.0


From b3e5ceaa0671f511716e857e10abcb9999e901b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 09/27] fix: arg_rex: stop repeating an empty match

((a*)*)* tried 65536 empty iterations per level and did not come back.
---
 src/arg_rex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index aa01dcf..f3d8ccb 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -771,6 +771,12 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 if ((s = trex_matchnode(exp, &exp->_nodes[node->left], s, greedystop)) == NULL)
                     break;
                 nmaches++;
+                if (s == good) {
+                    /* an empty match can be repeated at will: count it as often as required */
+                    if (nmaches < p0)
+                        nmaches = p0;
+                    break;
+                }
                 good = s;
                 if (greedystop) {
                     /* checks that 0 matches satisfy the expression(if so skips) */
-- 
2.43.0


From 6579cc06e0604f19e00cc6aeaa36ddbe65e57271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:16 +0000
Subject: [PATCH 10/27] fix: arg_dbl: do not accept an empty text as 0.0

strtod("") converts nothing and leaves *end == 0, so "-d \"\"" was accepted and
stored as 0.0 (arg_int refuses an empty text).
---
 src/arg_dbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dbl.c b/src/arg_dbl.c
index 3a00860..f63945a 100644
--- a/src/arg_dbl.c
+++ b/src/arg_dbl.c
@@ -62,7 +62,7 @@ static int arg_dbl_scanfn(struct arg_dbl* parent, const char* argval) {
         val = strtod(argval, &end);
 
         /* if success then store result in parent->dval[] array otherwise return error*/
-        if (*end == 0)
+        if (end != argval && *end == 0)
             parent->dval[parent->count++] = val;
         else
             errorcode = ARG_ERR_BADDOUBLE;
-- 
2.43.0


From 7a53e7abd220c9e0f5a813d36cdddfe1a996b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 11/27] fix: arg_date: show a real example of the expected
 format

arg_strptime() has no %F, so the example in the error message was always made
from an all-zero struct tm ("correct format is \"1900-01-00\"").
---
 src/arg_date.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..4b694b9 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -103,7 +103,7 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
 
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
-            arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
+            arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
             strftime(buff, sizeof(buff), parent->format, &tm);
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
-- 
2.43.0


From 1076adf034df3d49d9b960c175769d06103e1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 12/27] fix: arg_date: do not print an indeterminate buffer
 when strftime() fails

A format whose example does not fit 200 bytes left buff[] uninitialised and
unterminated.
---
 src/arg_date.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 4b694b9..1f09feb 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -104,7 +104,8 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
             arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0'; /* the contents are indeterminate */
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0


From f9b2459097e3004fc83320721f6326daa49c74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 13/27] fix: arg_date: %C sets years since 1900 like %Y and %y
 do

%C%y of "1999" stored tm_year 1999 instead of 99.
---
 src/arg_date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1f09feb..000b21d 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -403,9 +403,9 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     return (0);
 
                 if (split_year) {
-                    tm->tm_year = (tm->tm_year % 100) + (i * 100);
+                    tm->tm_year = (tm->tm_year % 100) + (i * 100) - TM_YEAR_BASE;
                 } else {
-                    tm->tm_year = i * 100;
+                    tm->tm_year = i * 100 - TM_YEAR_BASE;
                     split_year = 1;
                 }
                 break;
-- 
2.43.0


From ba1c53b410e2c5a67f40d4bf9752d71b890e5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 14/27] fix: arg_date: let %p be followed by more text

%p compared AM/PM with the whole rest of the value, so it could only match at
the very end ("%I:%M %p, %d" never matched).
---
 src/arg_date.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 000b21d..4ff7fa3 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -223,16 +223,6 @@ static const char* abmon[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul",
 
 static const char* am_pm[2] = {"AM", "PM"};
 
-static int arg_strcasecmp(const char* s1, const char* s2) {
-    const unsigned char* us1 = (const unsigned char*)s1;
-    const unsigned char* us2 = (const unsigned char*)s2;
-    while (tolower(*us1) == tolower(*us2++))
-        if (*us1++ == '\0')
-            return 0;
-
-    return tolower(*us1) - tolower(*--us2);
-}
-
 static int arg_strncasecmp(const char* s1, const char* s2, size_t n) {
     if (n != 0) {
         const unsigned char* us1 = (const unsigned char*)s1;
@@ -460,7 +450,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
             case 'p': /* The locale's equivalent of AM/PM. */
                 LEGAL_ALT(0);
                 /* AM? */
-                if (arg_strcasecmp(am_pm[0], bp) == 0) {
+                if (arg_strncasecmp(am_pm[0], bp, strlen(am_pm[0])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
@@ -468,7 +458,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     break;
                 }
                 /* PM? */
-                else if (arg_strcasecmp(am_pm[1], bp) == 0) {
+                else if (arg_strncasecmp(am_pm[1], bp, strlen(am_pm[1])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
-- 
2.43.0


From 50119f5ce9d67211f9e95a9de145ed3a4629c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 15/27] fix: arg_print_formatted: do not print an extra blank
 line after a full line

Trailing white space of a wrapped line was consumed 'except newlines',
but the test looked at the first character of the line. A newline right
behind a line that fills the column was stepped back over and printed
once more as a blank line.
---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..300e1c2 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -901,7 +901,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
                 line_end = line_start + colwidth;
             } else {
                 /* Consume trailing spaces, except newlines */
-                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_start) != '\n') {
+                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_end) != '\n') {
                     line_end--;
                 }
 
-- 
2.43.0


From 718bdea91a3b881ff15a5c22318eb44aa6e9bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 16/27] fix: arg_print_formatted: indent every following line

A line that follows a newline of the text was not indented when the rest
of the text fits into one column width.
---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index 300e1c2..f905532 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -926,7 +926,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
         arg_dstr_cat(ds, "\n");
 
         /* Initialize another line */
-        if (line_end < textlen) {
+        if (line_start < textlen) {
             unsigned i;
 
             for (i = 0; i < lmargin; i++) {
-- 
2.43.0


From f7087ce8b0ab490d8928eaf676755a4c0a8fef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 17/27] fix: arg_print_formatted: end the line of an empty text

arg_print_glossary_gnu() printed the next entry on the same line as an
entry whose glossary is empty.
---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index f905532..b4c3640 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -875,7 +875,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
     assert(strlen(text) < UINT_MAX);
 
     /* Someone doesn't like us... */
-    if (line_end < line_start) {
+    if (line_end <= line_start) {
         arg_dstr_catf(ds, "%s\n", text);
     }
 
-- 
2.43.0


From e28a15e19b2c7667bf2c3f3c151be7c5250dc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 18/27] fix: arg_dstr_set: allow the new text to be part of the
 old one

A volatile text may be (part of) the current content, as the comment in
arg_dstr_set() says, but it was copied with strcpy(), which must not be
used on overlapping strings.
---
 src/arg_dstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 0dbb2cd..a128e28 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -140,7 +140,7 @@ void arg_dstr_set(arg_dstr_t ds, char* str, arg_dstr_freefn* free_proc) {
             ds->data = ds->sbuf;
             ds->free_proc = ARG_DSTR_STATIC;
         }
-        strcpy(ds->data, str);
+        memmove(ds->data, str, (size_t)length + 1);
     } else {
         ds->data = str;
         ds->free_proc = free_proc;
-- 
2.43.0


From a70dd5263ba8888c44fe0d9f2179b6dda1748b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 19/27] fix: arg_dstr_cat, arg_dstr_catc: terminate the
 appended text

When the caller has shortened the text, the characters behind the new end
showed up again after the appended text.
---
 src/arg_dstr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index a128e28..433c0fa 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -174,12 +174,15 @@ char* arg_dstr_cstr(arg_dstr_t ds) /* Interpreter whose result to return. */
 
 void arg_dstr_cat(arg_dstr_t ds, const char* str) {
     setup_append_buf(ds, (int)strlen(str) + 1);
-    memcpy(ds->data + strlen(ds->data), str, strlen(str));
+    memcpy(ds->data + strlen(ds->data), str, strlen(str) + 1);
 }
 
 void arg_dstr_catc(arg_dstr_t ds, char c) {
+    size_t used;
     setup_append_buf(ds, 2);
-    memcpy(ds->data + strlen(ds->data), &c, 1);
+    used = strlen(ds->data);
+    ds->data[used] = c;
+    ds->data[used + 1] = 0;
 }
 
 /*
-- 
2.43.0


From d95b357e6fcca5b1105eb405e9b554c529921cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 20/27] fix: arg_cmd_register: copy the name and description
 before dropping the old command

Registering a command again with the name or description that
arg_cmd_info() returned read them after they had been freed.
---
 src/arg_cmd.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index a58e871..13461ed 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -137,15 +137,6 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     assert(strlen(name) < ARG_CMD_NAME_LEN);
     assert(strlen(description) < ARG_CMD_DESCRIPTION_LEN);
 
-    /* Check if the command already exists. */
-    /* If the command exists, replace the existing command. */
-    /* If the command doesn't exist, insert the command. */
-    cmd_info = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, name);
-    if (cmd_info) {
-        arg_hashtable_remove(s_hashtable, name);
-        cmd_info = NULL;
-    }
-
     cmd_info = (arg_cmd_info_t*)xmalloc(sizeof(arg_cmd_info_t));
     memset(cmd_info, 0, sizeof(arg_cmd_info_t));
 
@@ -170,6 +161,12 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     memcpy((char*)k, name, slen_name);
 #endif
 
+    /* Check if the command already exists. */
+    /* If the command exists, replace the existing command. */
+    /* If the command doesn't exist, insert the command. */
+    if (arg_hashtable_search(s_hashtable, k))
+        arg_hashtable_remove(s_hashtable, k);
+
     arg_hashtable_insert(s_hashtable, k, cmd_info);
 }
 
-- 
2.43.0


From 4cbe1173c0170710e279dde74851c65c3c178ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 21/27] fix: arg_file: forget the values of an earlier parse on
 reset

---
 src/arg_file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arg_file.c b/src/arg_file.c
index 1db09d4..f6b93ab 100644
--- a/src/arg_file.c
+++ b/src/arg_file.c
@@ -48,7 +48,14 @@
 #endif
 
 static void arg_file_resetfn(struct arg_file* parent) {
+    int i;
+
     ARG_TRACE(("%s:resetfn(%p)\n", __FILE__, parent));
+    for (i = 0; i < parent->count; i++) {
+        parent->filename[i] = "";
+        parent->basename[i] = "";
+        parent->extension[i] = "";
+    }
     parent->count = 0;
 }
 
-- 
2.43.0


From 35f8a9a00f64d1d7372f9468ba5de58568a57e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 22/27] fix: arg_rex: forget the values of an earlier parse on
 reset

---
 src/arg_rex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index f3d8ccb..733201e 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -123,7 +123,12 @@ struct privhdr {
 };
 
 static void arg_rex_resetfn(struct arg_rex* parent) {
+    int i;
+
     ARG_TRACE(("%s:resetfn(%p)\n", __FILE__, parent));
+    for (i = 0; i < parent->count; i++) {
+        parent->sval[i] = "";
+    }
     parent->count = 0;
 }
 
-- 
2.43.0


From e6a403f84de62b426575e784eca3e61a73491a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 23/27] fix: arg_date: forget the values of an earlier parse on
 reset

---
 src/arg_date.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arg_date.c b/src/arg_date.c
index 4ff7fa3..8007e17 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -43,6 +43,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm);
 
 static void arg_date_resetfn(struct arg_date* parent) {
     ARG_TRACE(("%s:resetfn(%p)\n", __FILE__, parent));
+    memset(parent->tmval, 0, (size_t)parent->count * sizeof(struct tm));
     parent->count = 0;
 }
 
-- 
2.43.0


From 60b76be9b45457b6b214fd1c16b21b7e3a2ae4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 24/27] build: compile src as gnu89, so that a line comment
 does not stop the build

Strict c89 makes any '//' line in src/ a hard error. The language accepted is
otherwise the same, and -Wpedantic still warns about everything that is not C89.
---
 src/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..b71aa02 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,7 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From cb97f38fb3e4fc6fce4914f228c16aa00c17e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 25/27] fix: arg_end: start with no error recorded

---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..e9b067a 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -99,6 +99,9 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
+    /* no error recorded yet */
+    result->count = 0;
+
     /* store error[maxcount] array immediately after struct arg_end */
     result->error = (int*)(result + 1);
 
-- 
2.43.0


From 2ed79efd2c368c18e31cfb167b8de8b1f8288c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 26/27] fix: arg_rex: look at both sides of a word boundary

---
 src/arg_rex.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 733201e..687a0da 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -868,13 +868,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 exp->_matches[capture].len = (int)(cur - exp->_matches[capture].begin);
             return cur;
         }
-        case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && str != exp->_bol && !isspace((int)(*(str - 1)))) ||
-                (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (str != exp->_eol && isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+        case OP_WB: {
+            /* a word is bounded by white space or by the ends of the text */
+            TRexBool before = (str != exp->_bol && !isspace((int)(*(str - 1)))) ? TRex_True : TRex_False;
+            TRexBool after = (str != exp->_eol && !isspace((int)(*str))) ? TRex_True : TRex_False;
+            if (before != after) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
+        }
         case OP_BOL:
             if (str == exp->_bol)
                 return str;
-- 
2.43.0


From 4e3072507f0ad23dbd7c2487ce138604ef7bbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 27/27] fix: arg_dstr_cat: allow the appended text to be part
 of the string

---
 src/arg_dstr.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 433c0fa..4e06268 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -173,8 +173,16 @@ char* arg_dstr_cstr(arg_dstr_t ds) /* Interpreter whose result to return. */
 }
 
 void arg_dstr_cat(arg_dstr_t ds, const char* str) {
-    setup_append_buf(ds, (int)strlen(str) + 1);
-    memcpy(ds->data + strlen(ds->data), str, strlen(str) + 1);
+    size_t used = strlen(ds->data);
+    size_t slen = strlen(str);
+    int own = (str >= ds->data && str <= ds->data + used); /* the new text is part of the old one */
+    size_t offset = own ? (size_t)(str - ds->data) : 0;
+
+    setup_append_buf(ds, (int)slen + 1);
+    if (own)
+        str = ds->data + offset;
+    memcpy(ds->data + used, str, slen);
+    ds->data[used + slen] = 0;
 }
 
 void arg_dstr_catc(arg_dstr_t ds, char c) {
-- 
2.43.0

