From cc2dd4e16b537f197e536b816c7a48eb273e00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 01/54] fix: error(): a long FAIL message overflowed the 80
 byte message buffer

---
 src/crasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..5375984 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -595,7 +595,7 @@ start:
 
 void error(char* s)
 {
-  char raw[80];
+  char raw[400];
   int oldflags;
   char c = toupper(*s);
 
@@ -603,7 +603,7 @@ void error(char* s)
 
   if (!(asmflags & F_NOERROR))
   {
-    sprintf(raw, "%7d ERROR: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d ERROR: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
-- 
2.43.0


From eaa6cc147bd00db33df1528bcebd2c29aa20e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 02/54] fix: warnings were never counted, the summary always
 said WARNINGS: 0

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index 5375984..396b35e 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -633,6 +633,7 @@ void warning(char* s)
 
   if (!(asmflags & F_NOWARNING))
   {
+    warnnumber++;
     sprintf(raw, "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
-- 
2.43.0


From cdfbd51e51a9b94c459334487719b9c470c0c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 03/54] fix: reported code length counted the bytes of both
 passes

---
 src/crasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 396b35e..634344f 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -44,6 +44,7 @@ int warnnumber;
 int segment;
 extern int includelevel;
 extern int thiscall;
+extern unsigned long codelen;
 struct label* starlabel;
 int llen;
 int ppos;
@@ -261,6 +262,7 @@ void pass(int n)
   fprintf(stderr, "Pass #%d\n", n);
 
   errnumber = warnnumber = 0;
+  codelen = 0;
 
   while (!feof(file))
   {
-- 
2.43.0


From db117f49451771188c3abad6197cb86a09455048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 04/54] fix: ASC with an unterminated string read past the end
 of the line

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..6b45e8d 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -232,6 +232,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (r == 0)
+    {
+      error("unterminated string");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From e07a16f4d44fe503568af995d7482a3f6905e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 05/54] fix: long operand lists and expressions overflowed the
 filter buffer

---
 src/filter.c | 8 +++++++-
 src/output.c | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index b4a88ed..95e56e9 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[200000];
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
@@ -60,6 +60,12 @@ int filter(char* s, char* fil, ...)
 
   s = str_start;
   oldbufferpos = bufferpos;
+
+  if (strlen(s) + 16 > (size_t) (buffer + sizeof(buffer) - bufferpos))
+  {
+    fatal("line too complex");
+  }
+
   starts = NULL;
   startf = NULL;
   va_start(ap, fil);
diff --git a/src/output.c b/src/output.c
index 389e396..2653358 100644
--- a/src/output.c
+++ b/src/output.c
@@ -45,6 +45,7 @@
 static int lastoffset;
 
 extern unsigned int chars_consumed_by_filter;
+extern char* bufferpos;
 char linebuffer[1000];
 char title[31] = "";
 int pagenumber = 0;
@@ -168,6 +169,7 @@ void outputcar(char c)
 {
   char* dummy;
   char** pat;
+  char* savedpos = bufferpos;
 
   if (!isspace((unsigned char)c))
   {
@@ -204,6 +206,7 @@ void outputcar(char c)
         }
 
       lastoffset = lpos;
+      bufferpos = savedpos;
     }
 
     if (isprint((unsigned char)c) || !isascii((unsigned char)c))
-- 
2.43.0


From d4dc87e354962b3733af5812630d211bf9be4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 06/54] fix: PAGE with 1000 columns overflowed the listing line
 buffer by one

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 2653358..8d74b0d 100644
--- a/src/output.c
+++ b/src/output.c
@@ -83,7 +83,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From db767b9f71e6d55acc975118688d31e2608f28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 07/54] fix: a register range expression hung the assembler

---
 src/operator.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index e589756..1046dd0 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -326,12 +326,12 @@ void opsub(struct result* presult, struct result* parg)
     register int lo = 0;
     register int hi = 0;
 
-    while (1 << lo != presult->value  && lo < 32)
+    while (lo < 32 && 1L << lo != presult->value)
     {
       lo++;
     }
 
-    while (1 << hi != parg->value     && hi < 32)
+    while (hi < 32 && 1L << hi != parg->value)
     {
       hi++;
     }
@@ -343,7 +343,7 @@ void opsub(struct result* presult, struct result* parg)
 
     while (lo <= hi)
     {
-      presult->value |= 1 << lo;
+      presult->value |= 1L << lo++;
     }
   }
   else
-- 
2.43.0


From 0730c2e93afcdd8264808973f6a1af985a78e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 08/54] fix: operators of equal precedence were not evaluated
 left to right

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9395b2e..e5c1a0f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -133,7 +133,7 @@ static void parse2(char* expr, struct result* presult)
 
         if (filter(expr, q[i].filtre, &ca, &cb))
         {
-          if (cb < c2 || j < 0)
+          if (j < 0 || strlen(ca) < strlen(c1))
           {
             c1 = ca;
             c2 = cb;
-- 
2.43.0


From 48c63ad7c80b3f7fb0e1c667c2cf8c12a76dbd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 09/54] fix: a constant kept the bit number of an earlier
 expression

---
 src/operator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operator.c b/src/operator.c
index 1046dd0..6e3e0a7 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -35,6 +35,8 @@ static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
+  presult->modifier = 0;
+  presult->ptr = NULL;
   presult->value = val;
 }
 
-- 
2.43.0


From f517367be4794fef16bafb204d71a851a5fd948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 10/54] fix: 33 digit binary constants were not reported as
 overflow

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 6e3e0a7..863028e 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -166,7 +166,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0


From 27d1b446403965299e6568596e14b8176e4e84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 11/54] fix: ascii constants wider than 32 bits were not
 reported as overflow

---
 src/operator.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index 863028e..3045d90 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -181,7 +181,6 @@ void cstbinary(struct result* presult, char* s)
 
 void cstascii(struct result* presult, char* s)
 {
-  register unsigned long oval;
   register unsigned long val;
   register int r;
   register char delimit;
@@ -229,14 +228,12 @@ void cstascii(struct result* presult, char* s)
       }
     }
 
-    oval = val;
-
-    val = (val << 8) + r;
-
-    if ((val >> 8) != oval)
+    if (val > 0xffffff)
     {
       error(overflow);
     }
+
+    val = (val << 8) + r;
   }
 
   if (*++s)
-- 
2.43.0


From abaa407f0a20bade6c6185ab03e2c5f0e3b13571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 12/54] fix: code file records got wrong addresses after DUMMY
 or an unchanged pc

---
 src/scode.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..d9978ee 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -77,12 +77,21 @@ void insert8(unsigned char x)
         flushscoderaw();
       }
 
+      if (rawnumber == 0)
+      {
+        rawstart = pc;
+      }
+
       raw[rawnumber++] = x;
     }
 
     codelen++;
     outputbyte(x);
   }
+  else if (scode != NULL)
+  {
+    flushscoderaw();
+  }
 
   advance++;
   pc++;
-- 
2.43.0


From a5a943ebeb5edd4da9493529f565b7b476799440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 13/54] fix: ENDC or ENDM on a last line without newline was
 taken for a missing one

---
 src/macro.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index c107558..4bb60d4 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -44,6 +44,15 @@ extern int errnumber;
 #define ENDM  0x21
 #define EXITM 0x22
 
+/* vrai si linegets n'a plus rien trouve dans le fichier principal */
+
+extern int sourcelevel;
+
+static int endofinput(void)
+{
+  return sourcelevel <= 0 && feof(file) && *curline == 0;
+}
+
 /*  if, else, endc  */
 
 int Xelse(int status, char* label, char* mnemo, char* oper)
@@ -233,7 +242,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofinput())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -306,7 +315,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofinput())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -451,7 +460,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     zerobuffer();
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofinput())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
-- 
2.43.0


From 381932ddf2c02cc8f6a79cd92461c962a140cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 14/54] fix: INCLUDE on a last line without newline was read in
 the wrong pass

---
 src/crasm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 634344f..64dbc11 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -43,6 +43,7 @@ int errnumber;
 int warnnumber;
 int segment;
 extern int includelevel;
+extern int sourcelevel;
 extern int thiscall;
 extern unsigned long codelen;
 struct label* starlabel;
@@ -264,7 +265,7 @@ void pass(int n)
   errnumber = warnnumber = 0;
   codelen = 0;
 
-  while (!feof(file))
+  while (!feof(file) || sourcelevel > 0)
   {
     if (setjmp(errorjump))
     {
-- 
2.43.0


From 9e747461ad9081a4f1ae7b6eba7f984778026650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 15/54] fix: ILIST ON in the first pass was still on at the
 start of the second

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index 64dbc11..757bcf4 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -236,6 +236,7 @@ void pass(int n)
   rewind(file);
 
   asmflags |= F_CODE_ON;
+  asmflags &= ~F_INCLUDELIST_ON;
 
   if (!(asmflags & F_NOLIST))
   {
-- 
2.43.0


From 9d86caba848d573eeb242eae3aa982a1a7eacbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 16/54] fix: forward references silently used a value the label
 did not end up with

---
 src/label.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/label.c b/src/label.c
index 6948501..6f0c83f 100644
--- a/src/label.c
+++ b/src/label.c
@@ -227,6 +227,13 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
     }
   }
 
+  if (passnumber == 2 && (q->flags & UNDEF) && (q->flags & FORWARD)
+      && q->value != value)
+  {
+    q->flags &= ~UNDEF;
+    error("phase error: forward reference has another value");
+  }
+
   q->flags &= USED | NOREDEF | FORWARD;
   flags    &= ~USED;
 
-- 
2.43.0


From 8128518f7184575676677934910cc6a00e4cf7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 17/54] fix: a label first seen in the second pass could be
 used without definition

---
 src/label.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label.c b/src/label.c
index 6f0c83f..3c1dfa5 100644
--- a/src/label.c
+++ b/src/label.c
@@ -188,7 +188,7 @@ struct label* findlabel(char* name)
 
   if (q == NULL)
   {
-    q = makelabel(name, UNDEF | FORWARD | NOREDEF,
+    q = makelabel(name, (passnumber == 2 ? 0 : FORWARD) | UNDEF | NOREDEF,
                   asmflags & F_RELATIF ? L_RELATIVE : L_ABSOLUTE);
   }
 
-- 
2.43.0


From 47be350a1f72b100594c9b990d1837510f744d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 18/54] fix: lines of an inactive IF branch were reported as
 errors

---
 src/crasm.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 757bcf4..3f875a8 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -450,7 +450,7 @@ int asmline(char* s, int status)
     mnemo = "equ";
     labmnemo = findmnemo(mnemo);
 
-    if (checklabel(label) == FALSE)
+    if ((status & 2) && checklabel(label) == FALSE)
     {
       error("malformed label");
     }
@@ -470,7 +470,7 @@ start:
       {
         label = mnemo;
 
-        if (checklabel(label) == FALSE)
+        if ((status & 2) && checklabel(label) == FALSE)
         {
           error("malformed label");
         }
@@ -486,6 +486,18 @@ start:
     }
   }
 
+  /* lignes inactives: seules comptent les pseudos IF et MACRO */
+  if (!(status & 2) &&
+      (labmnemo == NULL || !(labmnemo->flags & (DEFCOND | DEFMACRO))))
+  {
+    if (status & 1)
+    {
+      outputline();
+    }
+
+    return 0;
+  }
+
   if (labmnemo == NULL)
   {
     if (linestartswithoutblanks && label == NULL && oper == NULL && mnemo != NULL)
-- 
2.43.0


From 5acecaaf774b0a94a8aec8ae81c38abb2bbeb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 19/54] fix: macro operands were silently cut at 59 characters

---
 src/macro.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 4bb60d4..54211e7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -521,7 +521,7 @@ union
     byte oldlist;
     byte oldprefix;
     int  oldlinnum;
-    char (*replace)[60];
+    char (*replace)[256];
     int  numarg;
     struct macroline* mlineptr;
   } macrodesc;
@@ -614,7 +614,7 @@ void linegets(char* buffer, int length)
   {
     register struct macroline* q;
     int numarg;
-    char (*replace)[60];
+    char (*replace)[256];
     register char* s1;
     register char* s2;
 
@@ -742,7 +742,7 @@ extern int segment;
 
 int macrocall(struct label* labmacro, int status, char* oper)
 {
-  char replace[10][60];
+  char replace[10][256];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
   jmp_buf errjmpsav;
@@ -768,8 +768,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   if (oper && *oper)
   {
-    strncpy(replace[9], oper, 59);
-    replace[9][59] = 0;
+    strncpy(replace[9], oper, 255);
+    replace[9][255] = 0;
   }
 
   while (oper && *oper)
@@ -785,13 +785,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     if (filter(oper, "?_,_?", &arg1, &arg2))
     {
       oper = arg2;
-      strncpy(replace[numarg], arg1, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], arg1, 255);
+      replace[numarg++][255] = 0;
     }
     else
     {
-      strncpy(replace[numarg], oper, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], oper, 255);
+      replace[numarg++][255] = 0;
       oper = NULL;
     }
   }
-- 
2.43.0


From 92797edeecffe3c9467952120f4a218c958fe786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 20/54] fix: an expanded macro line cut inside its last operand
 gave no warning

---
 src/macro.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/macro.c b/src/macro.c
index 54211e7..5179869 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -669,6 +669,7 @@ void linegets(char* buffer, int length)
         {
           if (s1 - buffer > length - 10)
           {
+            warning("Too long line");
             break;
           }
 
-- 
2.43.0


From 7a37993662a1a1b454d04f0519ecd5bc3f98f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 21/54] fix: the rest of a too long line was assembled, a read
 error looped forever

---
 src/macro.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 5179869..7667bb5 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -574,8 +574,24 @@ void linegets(char* buffer, int length)
   {
     register char* s1;
     register char* s2;
+    int c = 0;
+    int toolong = 0;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
+
+    if (s1 && strlen(s1) == (size_t) (length - 1) && s1[length - 2] != '\n')
+    {
+      while ((c = getc(source[slevel].filedesc.file)) != EOF && c != '\n')
+      {
+        toolong = 1;
+      }
+    }
+
+    if (ferror(source[slevel].filedesc.file))
+    {
+      fatal("can't read source file");
+    }
+
     s2 = buffer;
     s1 = buffer;
 
@@ -599,6 +615,11 @@ void linegets(char* buffer, int length)
 
     linenumber++;
 
+    if (toolong)
+    {
+      warning("Too long line");
+    }
+
     if ((linenumber & 7) == 1 && passnumber == 1)
     {
       fprintf(stderr, "%d    \r", linenumber);
-- 
2.43.0


From 2e8cc614abe4338888efa4f111296c5908a95ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 22/54] fix: 6502 accumulator operand was accepted where there
 is no such mode

---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..ac60a90 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -184,6 +184,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
 
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
+      if (code & F_noacc)
+      {
+        error("illegal addressing mode");
+      }
+
       mode = 15;
     }
     else
-- 
2.43.0


From a6b5acfbb5f0906be53ec6737a432d4e3072775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 23/54] fix: 6502 accepted the 65C02 indexed modes of BIT

---
 src/cpu6502.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index ac60a90..63c9d59 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -253,6 +253,7 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
+                     opcode == 0x34 || opcode == 0x3c ||
                      opcode == 0x1a || opcode == 0x3a)
     {
       error("illegal use of 65C02 addressing mode");
-- 
2.43.0


From 51be1f4fcb7dbb18cef064e6c8bb8e85803b3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 24/54] fix: Z80 arithmetic and logical instructions accepted
 any operand

---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From 30c1a198ef44a2f39ff7c1a6ccc31886ddf94c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 25/54] fix: Z80 (IX-a+b) was assembled as (IX-(a+b))

---
 src/cpuz80.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index c590b4b..d9911a7 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -68,14 +68,17 @@ static int getreg(char* oper)
 
       if (i > 1)
       {
-        r = parse(oper2);
-        checktype(r, L_ABSOLUTE);
-        offset = r->value;
+        char negated[260];
 
         if (i > 3)
         {
-          offset = -offset;
+          snprintf(negated, sizeof(negated), "0-%s", oper2);
+          oper2 = negated;
         }
+
+        r = parse(oper2);
+        checktype(r, L_ABSOLUTE);
+        offset = r->value;
       }
 
       if (indexflag || offsetflag)
-- 
2.43.0


From f27d4fc082afea476d82aef137c963628c29db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 26/54] fix: DS with a negative size ran for billions of bytes

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 6b45e8d..95c71e1 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -187,6 +187,11 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
   checktype(r, L_ABSOLUTE);
   i = r->value;
 
+  if (i < 0)
+  {
+    error("negative size");
+  }
+
   while (i--)
   {
     insert8(init);
-- 
2.43.0


From f04bfc7c28d0d7da3589b1534458d5ce249183a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 27/54] fix: dividing the smallest value by -1 crashed the
 assembler

---
 src/operator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 3045d90..2c685a9 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -411,7 +411,11 @@ void opdiv(struct result* presult, struct result* parg)
   presult->flags |= parg->flags;
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
-  if (parg->value != 0)
+  if (parg->value == -1)
+  {
+    presult->value = -(unsigned long) presult->value;
+  }
+  else if (parg->value != 0)
   {
     presult->value /= parg->value;
   }
-- 
2.43.0


From 062dce2b349108c7782175e7906d3768677ad26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 28/54] fix: a write error when the code file is closed went
 unnoticed

---
 src/scode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index d9978ee..4cf95cb 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -174,7 +174,10 @@ void closescodefile(void)
 
   if (scode)
   {
-    fclose(scode);
+    if (fclose(scode))
+    {
+      fileerror(scodename);
+    }
   }
 }
 
-- 
2.43.0


From f83b8747bf481beeaedf9347759b649ccf238564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 29/54] fix: the symbol table was a fatal error with pages
 narrower than 62 columns

---
 src/xref.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..25ce424 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -108,7 +108,11 @@ void printlabel(struct label* label)
 
   *b = 0;
   output(buffer);
-  position(newpos);
+
+  if (newpos < llen)
+  {
+    position(newpos);
+  }
 }
 
 
-- 
2.43.0


From 2512c4dc668db4e9336cd7c810c5bb2e67df57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 30/54] fix: an operand such as (a+b)*(c+d) was taken for a
 parenthesized one

---
 src/filter.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/filter.c b/src/filter.c
index 95e56e9..94398b1 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -55,6 +55,8 @@ int filter(char* s, char* fil, ...)
   register char* starts;
   register char* startf;
   register int quote;
+  char* startp = NULL;  /* last significant pattern character */
+  int inparens = FALSE;
   char* oldbufferpos;
   char* str_start = (s) ? s : "";
 
@@ -93,6 +95,7 @@ int filter(char* s, char* fil, ...)
       }
       else
       {
+        inparens = (startp && *startp == '(');
         startf = fil;
         starts = s;
       }
@@ -108,6 +111,7 @@ int filter(char* s, char* fil, ...)
              (toupper(*fil) == toupper(*s) ||
               (*fil == ' ' && *s == '\t')))
     {
+      startp = fil;
       s++;
     }
 
@@ -159,6 +163,14 @@ int filter(char* s, char* fil, ...)
         case ')' :
           if (!(quote & 0x3))     /* "x)x" ok  */
           {
+            if (inparens && quote == 0)   /* "(x)+(x)" is no "(?)" */
+            {
+              *bufferpos = 0;
+              bufferpos = oldbufferpos;
+              va_end(ap);
+              return FALSE;
+            }
+
             quote -= 0x8;
           }
           break;
-- 
2.43.0


From eef7ba3c97cb76ec82ce124eb2e4a47e5c0d64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 31/54] fix: ROR was accepted on the 6500, and asl.x was no
 possible label

---
 src/cpu6502.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 63c9d59..df5b5bf 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -24,10 +24,11 @@
 #include "cpu.h"
 
 #define mnemo2(n,t,b,f)   mnemo( n, standard, (t<<8)|b|f )
-#define F_noimm     (1<<12)
-#define F_noacc     (1<<13)
-#define F_noindx    (1<<14)
-#define F_noindy    (1<<15)
+/* label modifiers are signed shorts, bit 15 must stay clear */
+#define F_noimm     (1<<11)
+#define F_noacc     (1<<12)
+#define F_noindx    (1<<13)
+#define F_noindy    (1<<14)
 
 /* n: name
    t: instruction type
@@ -35,7 +36,7 @@
    b: base address: opcode = b+offset
 */
 
-#define m2_offset   (offsettable[ (code>>8) & 0xf ])
+#define m2_offset   (offsettable[ (code>>8) & 0x7 ])
 #define m2_base     (code & 0xff)
 
 
-- 
2.43.0


From b9ecd1fefd904b209ab6646d517ee24a3ea53ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 32/54] fix: unprintable characters were reported on the
 previous line

---
 src/macro.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 7667bb5..089f9a8 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -607,14 +607,13 @@ void linegets(char* buffer, int length)
     }
 
     *s2 = 0;
+    linenumber++;
 
     if (s1 != s2)
     {
       warning("Unprintable characters removed");
     }
 
-    linenumber++;
-
     if (toolong)
     {
       warning("Too long line");
-- 
2.43.0


From 8c9db7c14b96656a52e45c7e265cee71855dc439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 33/54] fix: any word alone on a line defined a label,
 malformed or not

---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 3f875a8..e2c51b9 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -504,6 +504,11 @@ start:
     {
       label = mnemo;
 
+      if ((status & 2) && checklabel(label) == FALSE)
+      {
+        error("malformed label");
+      }
+
       if (status & 2)
       {
         herelabel(label);
-- 
2.43.0


From 9ae5af82ecaf4f1184eb685289b3111f2fa77545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 34/54] fix: a hex or S1 record ran over the end of its 64K
 segment

---
 src/scode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index 4cf95cb..cd53854 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,8 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      /* a record may not run over the end of a 64K segment */
+      if (rawnumber >= 16 || (pc & 0xffff) == 0)
       {
         flushscoderaw();
       }
-- 
2.43.0


From c308a54a5272557621b85224e69cc330575b5b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 35/54] fix: Z80 ADD, ADC and SBC accepted a third operand

---
 src/cpuz80.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index d9911a7..192d7b5 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -676,6 +676,13 @@ static int arith(int code, char* label, char* mnemo, char* oper)
 
   if (reg == ACCUMULATOR)
   {
+    char* op3;
+
+    if (filter(op2, "?_,_?", &op1, &op3))
+    {
+      error(badop);
+    }
+
     logical(code, label, mnemo, op2);
   }
   else if (reg == HLREGISTER)
-- 
2.43.0


From 6b23380a877b5ba188aa353e9f79021196d0cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 36/54] fix: Z80 IN and OUT rejected blanks inside the
 parentheses of the port

---
 src/cpuz80.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 192d7b5..1485569 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -498,8 +498,8 @@ static int inout(int code, char* label, char* mnemo, char* oper)
   CLRALL;
 
   if ((!(code & 8)) ?
-      filter(oper, "(?)_,_?", &op1, &op2)
-      : filter(oper, "?_,_(?)", &op2, &op1))
+      filter(oper, "(_?_)_,_?", &op1, &op2)
+      : filter(oper, "?_,_(_?_)", &op2, &op1))
   {
     reg = getreg(op1);
 
-- 
2.43.0


From 8dfb6fd1cf9fd7e56cc1f24a05d816dc003d08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 37/54] fix: * as an operand after another operator was taken
 for a multiplication

---
 src/parse.c | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index e5c1a0f..34be22d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -107,6 +107,47 @@ struct oplist
 };
 
 
+/* Un * a la place d'un operande est le pc: il devient PCSTAR,
+   qui n'est pas pris pour une multiplication.
+*/
+#define PCSTAR '\001'
+
+static void markpc(char* expr)
+{
+  int operand = TRUE;
+  char quote = 0;
+
+  for (; *expr; expr++)
+  {
+    if (quote)
+    {
+      if (*expr == '\\' && expr[1])
+      {
+        expr++;
+      }
+      else if (*expr == quote)
+      {
+        quote = 0;
+      }
+    }
+    else if (*expr == '*' && operand)
+    {
+      *expr = PCSTAR;
+      operand = FALSE;
+    }
+    else if (*expr != ' ' && *expr != '\t')
+    {
+      if (*expr == '\'' || *expr == '\"')
+      {
+        quote = *expr;
+      }
+
+      operand = (strchr("+-*/|&^<>~({\\", *expr) != NULL);
+    }
+  }
+}
+
+
 static void parse2(char* expr, struct result* presult)
 {
   register char* c1 = 0;
@@ -184,6 +225,11 @@ static void parse2(char* expr, struct result* presult)
     case -3:    /* label */
       reverse(expr);
 
+      if (*expr == PCSTAR && expr[1] == 0)
+      {
+        *expr = '*';
+      }
+
       if (checklabel(expr))
       {
         cstlabel(presult, expr);
@@ -229,9 +275,19 @@ struct result* parse(char* expr)
     warning("external parenthesis ignored");
   }
 
+  markpc(expr);
   reverse(expr);
   parse2(expr, &calcresult);
   reverse(expr);
+
+  for (dummy = expr; *dummy; dummy++)
+  {
+    if (*dummy == PCSTAR)
+    {
+      *dummy = '*';
+    }
+  }
+
   return &calcresult;
 }
 
-- 
2.43.0


From ad0c6b4067e8f0e39004ab88b8ab70d1d0099703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 38/54] fix: a quoted backslash was rejected in front of an
 operator

---
 src/filter.c | 53 +++++++++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index 94398b1..1c1799c 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -189,6 +189,7 @@ int filter(char* s, char* fil, ...)
 }
 
 
+/* Dans les chaines, \x reste \x. */
 void reverse(char* s)
 {
   register char* d;
@@ -196,61 +197,41 @@ void reverse(char* s)
   register char c;
   register int quote = 0;
 
-  d = s;
-  f = s;
-
-  while (*d)
-  {
-    d++;
-  }
-
-  while (--d > f)
-  {
-    c = *f;
-    *f++ = *d;
-    *d = c;
-  }
-
   for (d = s; *d; d++)
   {
     switch (*d)
     {
     case '\'':
-      if (! quote)
+      if (!(quote & 0x2))
       {
-        quote |= 0x1;
-      }
-      else if (quote & 0x1)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x1;
-        }
+        quote ^= 0x1;
       }
       break;
 
     case '\"':
-      if (! quote)
+      if (!(quote & 0x1))
       {
-        quote |= 0x2;
-      }
-      else if (quote & 0x2)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x2;
-        }
+        quote ^= 0x2;
       }
       break;
 
     case '\\':
-      if (quote)
+      if (quote && d[1])
       {
-        d[0] = d[-1];
-        d[-1] = '\\';
+        d[0] = d[1];
+        *++d = '\\';
       }
       break;
     }
   }
+
+  f = s;
+
+  while (--d > f)
+  {
+    c = *f;
+    *f++ = *d;
+    *d = c;
+  }
 }
 
-- 
2.43.0


From 4777a5d82ae68fc5200be8e53e684fc39eea6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 39/54] fix: an expression with an unfinished quote could be
 accepted

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 34be22d..e7b09a0 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -145,6 +145,11 @@ static void markpc(char* expr)
       operand = (strchr("+-*/|&^<>~({\\", *expr) != NULL);
     }
   }
+
+  if (quote)
+  {
+    error("bad ascii constant");
+  }
 }
 
 
-- 
2.43.0


From ca0434a80f8a2d5698c0176bbfe6319908e77bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 40/54] fix: long local labels lost their last characters to
 the scope number

---
 src/label.c | 10 +++++-----
 src/label.h |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/label.c b/src/label.c
index 3c1dfa5..5556723 100644
--- a/src/label.c
+++ b/src/label.c
@@ -78,7 +78,7 @@ int checklabel(char* name)
    stocke dans  addrpos  l'adresse du pointeur vers ce label
 */
 static struct label** addrpos;
-static char localname[LABLEN + 2];
+static char localname[KEYLEN + 2];
 
 struct label* searchlabel(char* name)
 {
@@ -99,7 +99,7 @@ struct label* searchlabel(char* name)
     }
   }
 
-  while (s - localname < LABLEN)
+  while (s - localname < KEYLEN)
   {
     if (*name)
     {
@@ -116,7 +116,7 @@ struct label* searchlabel(char* name)
   q = lroot;
   addrpos = &lroot;
 
-  while (q != NULL && (r = strncmp(s, q->name, LABLEN)) != 0)
+  while (q != NULL && (r = strncmp(s, q->name, KEYLEN)) != 0)
   {
     if (r > 0)
     {
@@ -169,7 +169,7 @@ struct label* makelabel(char* name, unsigned char flags, unsigned char type)
 
   *addrpos = q;
 
-  strncpy(q->name, localname, LABLEN);
+  strncpy(q->name, localname, KEYLEN);
   q->type  = type;
   q->flags = flags;
 
@@ -292,7 +292,7 @@ void init_label_list(struct label* array)
       else
       {
         *addrpos = q;
-        strncpy(q->name, localname, LABLEN);
+        strncpy(q->name, localname, KEYLEN);
       }
 
       i += incr;
diff --git a/src/label.h b/src/label.h
index f2da603..011c591 100644
--- a/src/label.h
+++ b/src/label.h
@@ -29,12 +29,13 @@
 #define LABEL_H
 
 #define LABLEN 48
+#define KEYLEN (LABLEN+12)   /* local labels: scope number and name */
 
 struct label
 {
   struct label* left;
   struct label* right;
-  char name[LABLEN];
+  char name[KEYLEN];
   byte flags;
   byte type;
   short modifier;
-- 
2.43.0


From 194c6e484b1f084fd47b1fc493fb6ee5abcc02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 41/54] fix: a shift in the operand of IF was taken for a
 comparison

---
 src/macro.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 089f9a8..b7a19b0 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -100,6 +100,30 @@ static struct compar
 
 static struct result zero = { 0, L_ABSOLUTE, 0, 0, 0 };
 
+/* << et >> ne sont pas des comparaisons: caches pendant leur recherche */
+static void hideshifts(char* s)
+{
+  for (; *s; s++)
+  {
+    if ((*s == '<' || *s == '>') && s[1] == *s)
+    {
+      s[0] = s[1] = (*s == '<') ? '\002' : '\003';
+      s++;
+    }
+  }
+}
+
+static void showshifts(char* s)
+{
+  for (; *s; s++)
+  {
+    if (*s == '\002' || *s == '\003')
+    {
+      *s = (*s == '\002') ? '<' : '>';
+    }
+  }
+}
+
 static int testtrue(char* oper)
 {
   char* s1, *s2;
@@ -111,6 +135,7 @@ static int testtrue(char* oper)
     return FALSE;
   }
 
+  hideshifts(oper);
   q = compar;
 
   while (q->comp)
@@ -123,6 +148,8 @@ static int testtrue(char* oper)
     q++;
   }
 
+  showshifts(oper);
+
   if (!q->comp)
   {
     r1 = *parse(oper);
@@ -130,6 +157,8 @@ static int testtrue(char* oper)
   }
   else
   {
+    showshifts(s1);
+    showshifts(s2);
     r1 = *parse(s1);
     r2 = *parse(s2);
   }
-- 
2.43.0


From 962dbc672bccd4b721d3cc44e3a9d424d07bc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 42/54] fix: a macro with an IF without ENDC ended the assembly
 without a report

---
 src/macro.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index b7a19b0..a0fb167 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -48,9 +48,11 @@ extern int errnumber;
 
 extern int sourcelevel;
 
+static int pastmacro;   /* vrai: linegets a lu au-dela de la macro */
+
 static int endofinput(void)
 {
-  return sourcelevel <= 0 && feof(file) && *curline == 0;
+  return pastmacro || (sourcelevel <= 0 && feof(file) && *curline == 0);
 }
 
 /*  if, else, endc  */
@@ -567,6 +569,7 @@ void linegets(char* buffer, int length)
 {
   register int slevel;
   slevel = sourcelevel;
+  pastmacro = 0;
 
   if (slevel < 0)
   {
@@ -671,15 +674,17 @@ void linegets(char* buffer, int length)
     numarg = source[slevel].macrodesc.numarg;
     replace = source[slevel].macrodesc.replace;
     s1 = buffer;
-    s2 = q->line;
+    s2 = " ENDM";
+
+    /* au-dela du ENDM (IF sans ENDC, macro mal definie): encore ENDM */
+    pastmacro = !q;
 
-    if (!q)
+    if (q)
     {
-      fatal("internal macrocall error");
+      s2 = q->line;
+      source[slevel].macrodesc.mlineptr = q->next;
     }
 
-    source[slevel].macrodesc.mlineptr = q->next;
-
     while (*s2)
     {
       if (s1 - buffer > length - 10)
-- 
2.43.0


From e7ef8a3aab736cab840121b4f4944e59db8cc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 43/54] fix: deeply nested IFs overflowed the stack

---
 src/macro.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index a0fb167..4ec60f6 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -217,6 +217,10 @@ static int testtrue(char* oper)
 }
 
 
+/* chaque IF imbrique consomme de la pile */
+#define MAXIFLEVEL 1000
+static int iflevel;
+
 int Xif(int status, char* label, char* mnemo, char* oper)
 {
   int flag;
@@ -262,6 +266,11 @@ int Xif(int status, char* label, char* mnemo, char* oper)
     }
   }
 
+  if (++iflevel > MAXIFLEVEL)
+  {
+    fatal("too many nested IF");
+  }
+
   jmp_buf_copy(errjmpsav, errorjump);
 
   do
@@ -275,6 +284,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     if (endofinput())
     {
+      iflevel--;
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
     }
@@ -290,6 +300,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
     }
   } while (flag == 0);
 
+  iflevel--;
   jmp_buf_copy(errorjump, errjmpsav);
   lineprefix = oldprefix;
 
@@ -337,6 +348,8 @@ int Xif(int status, char* label, char* mnemo, char* oper)
     }
   }
 
+  iflevel++;
+
   do
   {
     if (setjmp(errorjump))
@@ -348,6 +361,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     if (endofinput())
     {
+      iflevel--;
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
     }
@@ -363,6 +377,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
     }
   } while (flag == 0);
 
+  iflevel--;
   jmp_buf_copy(errorjump, errjmpsav);
   lineprefix = oldprefix;
 
-- 
2.43.0


From 827910f0868348f823a088d16a7cc1eb9dfc8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 44/54] fix: a fatal error in the second pass left an
 unfinished code file

---
 src/crasm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index e2c51b9..b06b2ee 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -670,6 +670,13 @@ void warning(char* s)
 void fatal(char* s)
 {
   printf("FATAL ERROR: %s\n", s);
+
+  if (scode)
+  {
+    /* le fichier de code est inacheve */
+    remove(scodename);
+  }
+
   exit(10);
 }
 
-- 
2.43.0


From 210124dc6be89cc0bdd24fbbd225784abd4e32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 45/54] fix: a failed write of the code file ended as a
 successful assembly

---
 src/scode.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/scode.c b/src/scode.c
index cd53854..563187c 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -144,6 +144,13 @@ void insert32(unsigned int x)
 }
 
 
+static void scodeerror(void)
+{
+  fileerror(scodename);
+  fatal("can't write code file");
+}
+
+
 static unsigned char checksum;
 
 static void scodebyte(unsigned char b)
@@ -155,7 +162,7 @@ static void scodebyte(unsigned char b)
 
   if (ferror(scode))
   {
-    fileerror(scodename);
+    scodeerror();
   }
 }
 
@@ -175,9 +182,11 @@ void closescodefile(void)
 
   if (scode)
   {
-    if (fclose(scode))
+    int failed = ferror(scode);
+
+    if (fclose(scode) || failed)
     {
-      fileerror(scodename);
+      scodeerror();
     }
   }
 }
-- 
2.43.0


From 92c0762945fb57caaf03678918e2b830227711c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 46/54] fix: running out of memory in a macro definition
 crashed the assembler

---
 src/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 4ec60f6..142cbb7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -520,6 +520,12 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     if (status & 2)
     {
       *where = (struct macroline*) malloc(sizeof(struct macroline) + strlen(s1));
+
+      if (!*where)
+      {
+        fatal("no memory");
+      }
+
       (*where)->next = NULL;
       strcpy((*where)->line, s1);
       where = & ((*where)->next);
-- 
2.43.0


From 6225b362dce5208edc408d83ef85013610f31931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 47/54] fix: -o without a file name, or a second one, was
 silently ignored

---
 src/crasm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index b06b2ee..7ea803a 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -118,13 +118,15 @@ int main(int argc, char** argv)
           break;
 
         case 'o': /* output name */
-          if (!s[1] && argc > 1 && !(flags & SCODE))
+          if (s[1] || argc <= 1 || (flags & SCODE))
           {
-            flags |= SCODE;
-            scodename = *++argv;
-            --argc;
+            syntax("Bad use of option -o");
           }
 
+          flags |= SCODE;
+          scodename = *++argv;
+          --argc;
+
           break;
 
         default:
-- 
2.43.0


From f41ec8a87c482a2b865bf4bb9f4aecb6213612af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 48/54] fix: a file included by a macro and left by EXITM or
 ENDM was never closed

---
 src/macro.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 142cbb7..4eeaed9 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -912,6 +912,14 @@ int macrocall(struct label* labmacro, int status, char* oper)
   } while (flag == 0);
 
   macrolevel--;
+
+  /* fichiers inclus par la macro et pas encore fermes */
+  for (; sourcelevel > slevel; sourcelevel--)
+  {
+    includelevel--;
+    fclose(source[sourcelevel].filedesc.file);
+  }
+
   linenumber = source[slevel].filedesc.oldlinnum;
   lineprefix = source[slevel].filedesc.oldprefix;
   asmflags &= ~ F_LIST_ON;
-- 
2.43.0


From d3295bc508ad8387b2c6ec380e9df0ea8848c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 49/54] fix: DDB before any origin left the byte order of the
 lines after it reversed

---
 src/pseudos.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pseudos.c b/src/pseudos.c
index 95c71e1..e14ce17 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -117,9 +117,7 @@ static void stocke(char* s, int modifier)
 
   case 2:
     mask = 0xffff0000;
-    asmflags ^= F_LOHI;
-    insert16(r->value);
-    asmflags ^= F_LOHI;
+    insert16(((r->value & 0xff) << 8) | ((r->value >> 8) & 0xff));
     break;
 
   case 3:
-- 
2.43.0


From d163ab5bda404831bc2419c84c656edb06df4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 50/54] fix: defining a macro again called it instead of the
 error, and arguments beginning with MACRO were refused

---
 src/crasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 7ea803a..26affed 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -562,7 +562,7 @@ start:
 
   if (labmnemo->type == L_MACRO)
   {
-    if (label && oper && !strncmp(oper, "MACRO", 5))
+    if (oper && filter(oper, "_MACRO_"))
     {
       error("macro is already defined");
     }
-- 
2.43.0


From 7878468b35f3f9b0081d2a17f083981b4ad4aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 51/54] fix: a name containing ENDM in a macro body was taken
 for the directive

---
 src/macro.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 4eeaed9..25dcea3 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -459,6 +459,17 @@ int Xendm(int status, char* label, char* mnemo, char* oper)
 }
 
 
+/* le mot ENDM est-il dans cette ligne ? */
+static int hasendm(char* s)
+{
+  char* s1;
+  char* s2;
+
+  return filter(s, "_ENDM_") || filter(s, "_ENDM ?", &s1)
+         || filter(s, "? ENDM_", &s1) || filter(s, "? ENDM ?", &s1, &s2);
+}
+
+
 int Xmacro(int status, char* label, char* mnemo, char* oper)
 {
   jmp_buf errjmpsav;
@@ -535,11 +546,11 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     {
       outputline();
     }
-  } while (! filter(s1, "_?_ENDM_?", &s1, &s2));
+  } while (! hasendm(s1));
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-  if (*s1 || *s2)
+  if (! filter(s1, "_ENDM_"))
   {
     error("illegal ENDM instruction");
   }
-- 
2.43.0


From f5edbea005bdbb2d602deb02478dfe57be7b91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 52/54] fix: Z80 CB and ED opcodes are no negative modifiers:
 BIT.X is no instruction

---
 src/label.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label.h b/src/label.h
index 011c591..152eadd 100644
--- a/src/label.h
+++ b/src/label.h
@@ -38,7 +38,7 @@ struct label
   char name[KEYLEN];
   byte flags;
   byte type;
-  short modifier;
+  int modifier;
   int (*ptr)();
   long value;
 };
-- 
2.43.0


From 04f7f42ece81e135811dd601e14072e27ca9c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:07 +0000
Subject: [PATCH 53/54] fix: a negative last address overflowed the summary's
 buffer

---
 src/xref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index 25ce424..d3983f9 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -131,7 +131,7 @@ void result(void)
 {
   extern int errnumber;
   extern int warnnumber;
-  char buffer[40];
+  char buffer[80];
 
   if (plen - ppos < 10)
   {
-- 
2.43.0


From 1cf1def3d81c784212b6c3a3ac6ad79af1786fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:41 +0000
Subject: [PATCH 54/54] fix: a symbol for a Z80 CB or ED instruction has no
 negative modifier either

---
 src/label.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label.h b/src/label.h
index 152eadd..b77bac5 100644
--- a/src/label.h
+++ b/src/label.h
@@ -47,7 +47,7 @@ struct result
 {
   byte flags;
   byte type;
-  short modifier;
+  int modifier;
   int (*ptr)();
   long value;
 };
-- 
2.43.0

