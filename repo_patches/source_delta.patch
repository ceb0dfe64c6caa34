From 54211d16f9fd17f12d68c0053f17306ffe3088b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:58 +0000
Subject: [PATCH 01/53] fix: treat an operator as last token after pending
 operators are evaluated

After a division, shift or comparison was reduced, the parser believed an
operand had just been read. A following unary operator, '*' or binary
literal, as in 9/2+-1 or 9/2+%101, was misread as a binary operator.
---
 src/exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..48ec572 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -726,6 +726,9 @@ void doop(opfunc_t func, int pri)
     while (Opi != Opibase && Oppri[Opi-1] && pri <= Oppri[Opi-1])
         evaltop();
 
+    /* evaluating pending operators pushes their results: an operator is last again */
+    Lastwasop = 1;
+
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
-- 
2.43.0


From 6c0167cfc349c6ed75af0d293b4fd78d998b0b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:59 +0000
Subject: [PATCH 02/53] fix: do not crash on dividing the smallest value by -1

LONG_MIN / -1 and LONG_MIN % -1 raise SIGFPE on common hardware.
---
 src/exp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 48ec572..f5794a1 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -787,6 +787,11 @@ void op_div(long v1, long v2, int f1, int f2)
         asmerr( ERROR_DIVISION_BY_0, true, NULL );
         stackarg(0L, 0, NULL);
     }
+    else if (v2 == -1)
+    {
+        /* the quotient LONG_MIN / -1 does not exist and traps: wrap instead */
+        stackarg((long)(0UL - (unsigned long)v1), 0, NULL);
+    }
     else
     {
         stackarg(v1 / v2, 0, NULL);
@@ -801,6 +806,8 @@ void op_mod(long v1, long v2, int f1, int f2)
     }
     if (v2 == 0)
         stackarg(v1, 0, NULL);
+    else if (v2 == -1)
+        stackarg(0L, 0, NULL);  /* LONG_MIN % -1 traps */
     else
         stackarg(v1 % v2, 0, NULL);
     Lastwasop = 1;
-- 
2.43.0


From 5799298590656eddd8ba356d723c525d664f9fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:24 +0000
Subject: [PATCH 03/53] fix: reject NOP with an operand on the 65C02

The unofficial 6502 NOP opcodes $80, $04, $14, $0c and $1c are BRA, TSB and
TRB on this processor, so 'nop #$10' was assembled into a branch.
---
 src/mne65c02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mne65c02.c b/src/mne65c02.c
index 25167b1..ddee0e4 100644
--- a/src/mne65c02.c
+++ b/src/mne65c02.c
@@ -85,7 +85,7 @@ MNEMONIC Mne65c02[] = {
     { NULL, v_mnemonic, "ldx", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRY|AF_WORDADR|AF_WORDADRY, { 0xA2, 0xA6, 0xB6, 0xAE, 0xBE } },
     { NULL, v_mnemonic, "ldy", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xA0, 0xA4, 0xB4, 0xAC, 0xBC } },
     { NULL, v_mnemonic, "lsr", 0, AF_IMP|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0x4A, 0x46, 0x56, 0x4E, 0x5E } },
-    { NULL, v_mnemonic, "nop", 0, AF_IMP|AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xEA, 0x80, 0x04, 0x14, 0x0c, 0x1c } },
+    { NULL, v_mnemonic, "nop", 0, AF_IMP, { 0xEA } },
     { NULL, v_mnemonic, "ora", 0, AF_IMM8|ASTD, { 0x09, 0x05, 0x15, 0x0D, 0x1D, 0x19, 0x01, 0x11, 0x12 } },
     { NULL, v_mnemonic, "pha", 0, AF_IMP, { 0x48 } },
     { NULL, v_mnemonic, "phx", 0, AF_IMP, { 0xda } },   /* PusH X */
-- 
2.43.0


From 1ff8cdf8e4ecf22aaeaa8d5831f6d98a5d643323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:43 +0000
Subject: [PATCH 04/53] fix: do not read before the argument stack on a missing
 argument

A comma with no argument before it, as in 'dc.b ,1', decremented the
argument index below its base and read and later wrote out of bounds. On
the 65C02 it was not even reported.
---
 src/exp.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index f5794a1..da4af95 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -461,6 +461,13 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
+                if (Argi <= Argibase)
+                {
+                    /* no argument before the comma */
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    stackarg(0L, 0, NULL);
+                    Lastwasop = 1;
+                }
                 --Argi;
                 cur->value = Argstack[Argi];
                 cur->flags = Argflags[Argi];
@@ -515,9 +522,14 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                if (Argi < Argibase)
+                if (Argi <= Argibase)
+                {
+                    /* no argument before the comma */
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    stackarg(0L, 0, NULL);
+                    Lastwasop = 1;
+                }
+                --Argi;
                 if (Argi > Argibase)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 cur->value = Argstack[Argi];
-- 
2.43.0


From bb22c52febd8b732327abb66d26a67b41c1166e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:59 +0000
Subject: [PATCH 05/53] fix: reject out of range negative operands in all
 addressing modes

The range check for negative values covered immediate, direct and indexed
operands only.  Indirect operands, bit numbers, bit addresses and masks
were silently truncated, and strict mode did not check (addr,x).
---
 src/ops.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 3321bb2..49ec40a 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -297,6 +297,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_WORDADRX:
     	case AM_WORDADRY:
     	case AM_INDWORD:
+    	case AM_INDWORDX:
     	case AM_WORDADR_SP:
     		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
     			sprintf( sBuffer, "%s %s", mne->name, str );
@@ -309,6 +310,10 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRX:
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
+    	case AM_BYTEREL:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_INDBYTE:
     		if (sym->value < -0xFF) {	// isn't this our space ?
     			sprintf( sBuffer, "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
@@ -377,7 +382,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
     case AM_BITMOD:
         sym = symbase->next;
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             sprintf( sBuffer, "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -385,7 +390,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value > 7 || symbase->value < 0)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -396,7 +401,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value > 7 || symbase->value < 0)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -404,7 +409,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         sym = symbase->next;
 
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             sprintf( sBuffer, "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -438,7 +443,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
         if (sym)
         {
-            if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+            if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
                 sprintf( sBuffer, "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
-- 
2.43.0


From d96b7b4835611bbd4d1e45ed11acdfddc3d77d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:59 +0000
Subject: [PATCH 06/53] fix: fail on F8 branches that do not reach their target

The error is not fatal by itself.  Ask for another pass as the other
processors do, so assembly only succeeds once the branch works.
---
 src/mnef8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..8a9bb92 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,6 +544,9 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
+                disp = 0;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
-- 
2.43.0


From ff7ffbb83464b39d2dd79f3c75a6190fd8bb01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:46 +0000
Subject: [PATCH 07/53] fix: check operand ranges against the addressing mode
 finally used

The checks ran before the mode was widened, so indexed operands without
offset form and extended operands chosen by value escaped them.
---
 src/ops.c | 61 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 49ec40a..9814670 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -291,36 +291,6 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     		break;
     }
 
-    switch(addrmode) {
-    	case AM_IMM16:
-    	case AM_WORDADR:
-    	case AM_WORDADRX:
-    	case AM_WORDADRY:
-    	case AM_INDWORD:
-    	case AM_INDWORDX:
-    	case AM_WORDADR_SP:
-    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
-    		}
-    		break;
-
-    	case AM_IMM8:
-    	case AM_BYTEADR:
-    	case AM_BYTEADRX:
-    	case AM_BYTEADRY:
-    	case AM_BYTEADR_SP:
-    	case AM_BYTEREL:
-    	case AM_INDBYTEX:
-    	case AM_INDBYTEY:
-    	case AM_INDBYTE:
-    		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
-    		}
-    		break;
-    }
-
     while (opsize > Opsize[addrmode])
     {
         if (Cvt[addrmode] == 0 || badcode(mne,Cvt[addrmode]))
@@ -366,6 +336,37 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         }
         addrmode = Cvt[addrmode];
     }
+
+    switch(addrmode) {
+    	case AM_IMM16:
+    	case AM_WORDADR:
+    	case AM_WORDADRX:
+    	case AM_WORDADRY:
+    	case AM_INDWORD:
+    	case AM_INDWORDX:
+    	case AM_WORDADR_SP:
+    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
+    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
+    		}
+    		break;
+
+    	case AM_IMM8:
+    	case AM_BYTEADR:
+    	case AM_BYTEADRX:
+    	case AM_BYTEADRY:
+    	case AM_BYTEADR_SP:
+    	case AM_BYTEREL:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_INDBYTE:
+    		if (sym->value < -0xFF) {	// isn't this our space ?
+    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
+    		}
+    		break;
+    }
+
     opcode = mne->opcode[addrmode];
     opidx = 1 + (opcode > 0xFF);
     if (opidx == 2)
-- 
2.43.0


From 240e35330bde6fe0da52e726179a4d9e9d2b9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:43 +0000
Subject: [PATCH 08/53] fix: write no hunk length when format 2 output has no
 hunk

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 9814670..5dc60e6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1757,7 +1757,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             fseek(FI_temp, Seekback, 0);
             putc((Seglen & 0xFF), FI_temp);
-- 
2.43.0


From 0eab1f05777c04f5c45ca8894eb6d35b1c687e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:43 +0000
Subject: [PATCH 09/53] fix: start a new hunk before its length exceeds 16 bits

---
 src/ops.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 5dc60e6..f15c2d5 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1714,7 +1714,8 @@ generate(void)
 
             case FORMAT_RAS:
 
-                if (org != Csegment->org)
+                /* the length word of a hunk holds 16 bits */
+                if (org != Csegment->org || Seglen + Glen > 0xFFFF)
                 {
                     org = Csegment->org;
                     seekpos = ftell(FI_temp);
-- 
2.43.0


From 8dbb8051c3e80594e21d0dc63d276fd9173d0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:27 +0000
Subject: [PATCH 10/53] fix: take another pass when an origin is not known yet

A second ORG with a forward reference was placed at address 0: format 2
succeeded with wrong hunks and formats 1 and 3 aborted.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index f15c2d5..867931b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -955,7 +955,11 @@ v_org(char *str, MNEMONIC *dummy)
     Csegment->org = sym->value;
 
     if (sym->flags & SYM_UNKNOWN)
+    {
         Csegment->flags |= SYM_UNKNOWN;
+        ++Redo;
+        Redo_why |= REASON_OBSCURE;
+    }
     else
         Csegment->flags &= ~SYM_UNKNOWN;
 
-- 
2.43.0


From 504c5dc9c49ce4fc48459b92cf37cd3817be89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:03 +0000
Subject: [PATCH 11/53] fix: keep the per-pass error flags in bounds

Exceeding the pass limit wrote behind the array, -p0 and negative limits
allocated too little, and errors in -D expressions came before it existed.
---
 src/main.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index b42be44..9a8c9f8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -573,8 +573,12 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
+    if (nMaxPasses < 0)
+        nMaxPasses = 0;
+
+    // we dont count from zero ! (for fewer code changes), and the error about too many
+    // passes belongs to the pass after the last one
+    bStopAtEnd = (bool *)zmalloc((nMaxPasses+2) * sizeof(bool));
 
     /*    INITIAL SEGMENT */
 
@@ -1595,7 +1599,7 @@ int asmerr(int err, bool bAbort, const char *sText )
     else
     {
 
-        if (sErrorDef[err].bFatal)
+        if (sErrorDef[err].bFatal && bStopAtEnd)
             bStopAtEnd[pass] = true;
 
 	pincfile = pIncfile;
-- 
2.43.0


From 8551d64e71dd81484cdd70fa5479dc374257831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:03 +0000
Subject: [PATCH 12/53] fix: do not print errors to a list file that is not
 open

---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9a8c9f8..f1a757f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -725,7 +725,10 @@ nextpass:
     closegenerate();
     fclose(FI_temp);
     if (FI_listfile)
+    {
         fclose(FI_listfile);
+        FI_listfile = NULL;
+    }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -784,7 +787,7 @@ nextpass:
 
     if (nMacroClosings != nMacroDeclarations) {
         /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        FILE *error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
@@ -1628,7 +1631,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         */
 
         /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From 0fec6378e21fdbda567c0c36975222affd0a7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:50 +0000
Subject: [PATCH 13/53] fix: take another pass when a REPEAT count is not known
 yet

A count defined further down was read as zero and the block left out
without any error.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 867931b..de4983e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1499,6 +1499,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     programlabel();
     sym = eval(str, 0);
     if (sym->value == 0) {
+        if (sym->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif(0);
         FreeSymbolList(sym);
         return;
-- 
2.43.0


From f304c9f477f2726d8147412646d003310aabf039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:13 +0000
Subject: [PATCH 14/53] fix: symbols that start with x_, y_ or sp_ after a
 comma

In a list such as 'dc.b 1,x_pos' the x was taken for the index register
because only letters and digits counted as part of a longer name.
---
 src/exp.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index da4af95..3195054 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -94,7 +94,7 @@ const char *pushdec(const char *str);
 const char *pushhex(const char *str);
 const char *pushchar(const char *str);
 
-int IsAlphaNum( int c );
+int IsSymbolChar( int c );
 
 /*
 *  evaluate an expression.  Figure out the addressing mode:
@@ -451,7 +451,7 @@ SYMBOL *eval(const char *str, int wantmode)
             Lastwasop = 1;
             scr = str[1]|0x20;	  /* to lower case */
 
-            if (cur->addrmode == AM_INDWORD && scr == 'x' && !IsAlphaNum( str[2] ))
+            if (cur->addrmode == AM_INDWORD && scr == 'x' && !IsSymbolChar( str[2] ))
             {
                 cur->addrmode = AM_INDBYTEX;
                 ++str;
@@ -499,19 +499,19 @@ SYMBOL *eval(const char *str, int wantmode)
                    ++str;
 
             }
-            else if (scr == 'x' && !IsAlphaNum(str[2]))
+            else if (scr == 'x' && !IsSymbolChar(str[2]))
             {
                 cur->addrmode = AM_0X;
                 ++str;
                 //FIX: OPCODE.FORCE / Mnext adaption moved to ops.c
             }
-            else if (scr == 'y' && !IsAlphaNum(str[2]))
+            else if (scr == 'y' && !IsSymbolChar(str[2]))
             {
                 cur->addrmode = AM_0Y;
                 ++str;
                 //FIX: OPCODE.FORCE / Mnext adaption moved to ops.c
             }
-            else if ((scr == 's') && ((str[2]|0x20) == 'p') && !IsAlphaNum(str[3]))      // stack pointer indexed address mode
+            else if ((scr == 's') && ((str[2]|0x20) == 'p') && !IsSymbolChar(str[3]))      // stack pointer indexed address mode
             {
                 cur->addrmode = AM_BYTEADR_SP;
                 ++str;
@@ -623,11 +623,12 @@ SYMBOL *eval(const char *str, int wantmode)
 }
 
 
-int IsAlphaNum( int c )
+int IsSymbolChar( int c )
 {
     return ((c >= 'a' && c <= 'z')
         || (c >= 'A' && c <= 'Z')
-        || (c >= '0' && c <= '9'));
+        || (c >= '0' && c <= '9')
+        || c == '_' || c == '.' || c == '@' || c == '$');
 }
 
 void evaltop(void)
-- 
2.43.0


From bb8ab9cca35fcae89240d268277441b127eb7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:47 +0000
Subject: [PATCH 15/53] fix: IFCONST and IFNCONST inside a skipped block

Like IF, they must not define a label or evaluate their operand when the
enclosing block is not assembled.
---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index de4983e..601f2f8 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1416,6 +1416,10 @@ v_ifconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags == 0);
@@ -1427,6 +1431,10 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags != 0);
-- 
2.43.0


From 828d5cfc60a650b3b0ab2421ef462c1f82a01538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:56 +0000
Subject: [PATCH 16/53] fix: evaluate only the argument of a dynamic label

The text after the comma was evaluated up to the end of the line, so
'label,i nop' was a syntax error and 'label,i = 5' compared i with 5.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index f1a757f..897bb5d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1330,7 +1330,7 @@ MNEMONIC *parse(char *buf)
                 tempbuf[256]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
-                    if(tempbuf[t] == ',')
+                    if(tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ',' || tempbuf[t] == ':')
                         tempbuf[t]=0;
                 }
                 symarg = eval(tempbuf,0);
-- 
2.43.0


From 2c42696a287076039fe6428a18f2e45b7a86070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:04 +0000
Subject: [PATCH 17/53] fix: terminate the composed name in SET at its own
 length

The position in the source text was used instead, which cut off names
longer than the expression they are composed from.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 601f2f8..90f3277 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1266,7 +1266,7 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
+        dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
             return;
-- 
2.43.0


From 9619c04d2b8e7d1d4071217ed7b1cbae26e906e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:55 +0000
Subject: [PATCH 18/53] fix: close conditionals and loops that MEXIT leaves

They stayed on the stack after the macro was gone, so ELSE, ENDIF and
REPEND of the calling code acted on them and whatever followed could be
skipped silently.
---
 src/ops.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 90f3277..86d2f0b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1390,6 +1390,13 @@ v_endm(char *str, MNEMONIC *dummy)
     /* programlabel(); contrary to documentation */
     if (inc->flags & INF_MACRO) {
         --Mlevel;
+
+        /* conditionals and loops left open end with the macro */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         for (args = inc->args; args; args = an) {
             an = args->next;
             free(args);
-- 
2.43.0


From 2df929a48fdb503017a466cc46ee614e8e77cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:01 +0000
Subject: [PATCH 19/53] fix: do not expand braces inside an inserted macro
 argument again

An argument that contains its own reference, as left behind by a call
with too few arguments, was expanded for ever.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 897bb5d..28009f2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -967,6 +967,7 @@ static const char *cleanup(char *buf, bool bDisable)
     STRLIST *strlist;
     int arg, add;
     const char *comment = "";
+    char *substend = buf;   /* end of the macro argument inserted last */
 
     char *mlstart, *mlend, *semistart;
     mlstart=strstr(buf,"/*");
@@ -1068,7 +1069,7 @@ static const char *cleanup(char *buf, bool bDisable)
             }
             break;
         case '{':
-            if ( bDisable )
+            if ( bDisable || str < substend ) /* arguments are not expanded again */
                 break;
 
             if (Xdebug)
@@ -1116,6 +1117,7 @@ static const char *cleanup(char *buf, bool bDisable)
                 if (str - strlen(strlist->buf) < buf)
                     panic("failure2");
                 memmove(str - strlen(strlist->buf), strlist->buf, strlen(strlist->buf));
+                substend = str;
                 str -= strlen(strlist->buf);
                 if (str < buf || str >= buf + MAXLINE)
                     panic("failure 3");
-- 
2.43.0


From 24ae1df0011eed828465c72d6db48fc4bc6db107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:07 +0000
Subject: [PATCH 20/53] fix: semicolon inside a C style comment

A ';' between /* and */ hid the end of the comment, so the lines up to
the next */ were dropped silently.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 28009f2..a411ace 100644
--- a/src/main.c
+++ b/src/main.c
@@ -989,7 +989,7 @@ static const char *cleanup(char *buf, bool bDisable)
                     *tmpc=0;
                 tmpc++;
             }
-	    snprintf(tempbuf,MAXLINE,"%s;*/%s",mlend+2,buf); // put the comment at the end of the line
+	    snprintf(tempbuf,MAXLINE,"%s;%s*",mlend+2,buf); // put the comment at the end of the line
             strncpy(buf,tempbuf,MAXLINE);
             return(cleanup(buf,bDisable)); // repeat for any single-line comments that may follow
         }
@@ -1006,7 +1006,7 @@ static const char *cleanup(char *buf, bool bDisable)
             asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
         if (mlstart && ((!semistart) || (mlstart < semistart)))
         {
-            if (mlend && (mlstart < mlend) && ((!semistart)||(mlend < semistart))) // single line /* */
+            if (mlend && (mlstart < mlend)) // single line /* */
             {
 	        char tempbuf[MAXLINE];
                 char *tmpc;
-- 
2.43.0


From b5f7a7f8d3247f39ec91bd30546ee2421c428706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:27 +0000
Subject: [PATCH 21/53] fix: report '!' without '=' after a value as a syntax
 error

The character after '!' was skipped whatever it was, including the
terminating NUL of the operand.
---
 src/exp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 3195054..9f9d997 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -282,7 +282,10 @@ SYMBOL *eval(const char *str, int wantmode)
             else
             {
                 doop((opfunc_t)op_noteq, 16);
-                ++str;
+                if (str[1] == '=')
+                    ++str;
+                else
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
             }
             ++str;
             break;
-- 
2.43.0


From a46169e48cbac8a69197d10addffe9a498a87df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:28 +0000
Subject: [PATCH 22/53] fix: report unbalanced brackets in expressions

A closing bracket without an opening one was ignored.  An opening
bracket without a closing one applied whatever operator was used last
at that depth; it is now the internal error it already was when no
operator had been used before.
---
 src/exp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 9f9d997..58e4d58 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -411,6 +411,8 @@ SYMBOL *eval(const char *str, int wantmode)
                 evaltop();
             if (Opi != Opibase)
                 --Opi;
+            else if (!ucasm_indexed_notation)
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
             ++str;
 
 	    if (ucasm_indexed_notation) {
@@ -646,7 +648,8 @@ void evaltop(void)
     }
     --Opi;
 
-    if (Opdis[Opi] == NULL) {
+    /* priority 0 is a bracket which has not been closed */
+    if (Oppri[Opi] == 0 || Opdis[Opi] == NULL) {
     	asmerr( ERROR_AVOID_SEGFAULT, true, "operator function table" );
     	return;
     }
-- 
2.43.0


From 2c69f3b3caaa54464fc66407d98d67ee61fb95fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:29 +0000
Subject: [PATCH 23/53] fix: report an immediate operand without a value

---
 src/exp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 58e4d58..6f0241f 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -615,6 +615,11 @@ SYMBOL *eval(const char *str, int wantmode)
         if ((base->addrmode == 0) && (cur->addrmode == AM_BYTEREL))
             base->addrmode = AM_BYTEREL;
     }
+    else if (cur->addrmode == AM_IMM8)
+    {
+        /* no argument after the hash */
+        asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+    }
 
     if (Argi != Argibase || Opi != Opibase)
         asmerr( ERROR_SYNTAX_ERROR, false, pLine );
-- 
2.43.0


From e292084e7094824660962e1a2c5bdaf4901df2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:30 +0000
Subject: [PATCH 24/53] fix: do not ignore DV without a proper EQM label

---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 86d2f0b..3b814b9 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -758,6 +758,8 @@ v_dc(char *str, MNEMONIC *mne)
         str += i;
         if (tmp == NULL) {
             puts("EQM label not found");
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
         if (tmp->flags & SYM_MACRO) {
@@ -766,6 +768,8 @@ v_dc(char *str, MNEMONIC *mne)
         else
         {
             puts("must specify EQM label for DV");
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
     }
-- 
2.43.0


From c82ba97acab5258c2991292ee31d5fa93225766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:31 +0000
Subject: [PATCH 25/53] fix: remove the output file for -R when assembly is
 aborted too

---
 src/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index a411ace..c5a603e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -55,6 +55,7 @@ void clearrefs(void);
 
 static unsigned int hash1(const char *str);
 static void outlistfile(const char *);
+static void removeoutfile(void);
 
 // buffers to supress errors and messages until last pass
 char *passbuffer [2] = { NULL, NULL};
@@ -792,6 +793,7 @@ nextpass:
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
 
+        removeoutfile();
         exit(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
@@ -1140,9 +1142,17 @@ br2:
     return comment;
 }
 
+/* with -R, errors must not leave an output file behind */
+static void removeoutfile(void)
+{
+    if (bRemoveOutBin && FI_temp != NULL)
+        unlink(F_outfile);
+}
+
 void panic(const char *str)
 {
     puts(str);
+    removeoutfile();
     exit(1);
 }
 
@@ -1701,6 +1711,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
+            removeoutfile();
             exit(err);
         }
     }
-- 
2.43.0


From 15300d379bcbc52e99c093c92fb533535da28076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:30 +0000
Subject: [PATCH 26/53] fix: ftohex reads beyond an empty format 2 file

Without any hunk the length was taken from EOF and about 4 GB of
records were written.
---
 src/ftohex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..3db6b79 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -106,6 +106,8 @@ convert(int format, FILE *in, FILE *out)
     org = getwlh(in);
     if (format == 2) {
 	len = getwlh(in);
+	if (feof(in))
+	    len = 0;
     } else {
 	long begin = ftell(in);
 	fseek(in, 0, SEEK_END);
-- 
2.43.0


From b55cefb54e258db8035d42f6535a9c6c8003c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:56 +0000
Subject: [PATCH 27/53] fix: order symbols by their full value in the
 address-sorted symbol dump

The comparison returned the difference of two long values as an int, so
values further apart than an int were listed in the wrong order.
---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c5a603e..4802c55 100644
--- a/src/main.c
+++ b/src/main.c
@@ -206,7 +206,8 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    /* the difference of two values need not fit an int */
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
-- 
2.43.0


From fea6e9c0ec7c420484c95864fe978ca476089edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:07:10 +0000
Subject: [PATCH 28/53] fix: keep the referenced mark of symbols that are
 assigned again

EQU and SET overwrote all flags of the symbol. A symbol used only before
its definition was therefore not marked (R ) in the symbol dump.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 3b814b9..733ed39 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1126,7 +1126,7 @@ v_equ(char *str, MNEMONIC *dummy)
     }
 
     lab->value = sym->value;
-    lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
+    lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | (lab->flags & SYM_MASREF);
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
 
@@ -1284,7 +1284,7 @@ void v_set(char *str, MNEMONIC *dummy)
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
     lab->value = sym->value;
-    lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
+    lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | (lab->flags & SYM_MASREF);
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
     FreeSymbolList(sym);
-- 
2.43.0


From d568ba63246111d31b01a2e67ec9b7769d40a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:07:30 +0000
Subject: [PATCH 29/53] fix: list symbols in definition order when an equate
 was used before it

Only labels got an order number when they had been referenced before
their definition. EQU, SET and EQM symbols kept number zero and were
listed first with -T2.
---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 733ed39..ee49ee6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1104,6 +1104,8 @@ v_equ(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount; // was referenced before its definition
     if (!(lab->flags & SYM_UNKNOWN))
     {
         if (sym->flags & SYM_UNKNOWN)
@@ -1157,6 +1159,8 @@ v_eqm(char *str, MNEMONIC *dummy)
     if ((lab = findsymbol(Av[0], len)) != NULL) {
         if (lab->flags & SYM_STRING)
             free(lab->string);
+        if (!lab->order)
+            lab->order = ++SymbolCount; // was referenced before its definition
     }
     else
     {
@@ -1283,6 +1287,8 @@ void v_set(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount; // was referenced before its definition
     lab->value = sym->value;
     lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | (lab->flags & SYM_MASREF);
     lab->string = sym->string;
-- 
2.43.0


From 5ed6003b2975aa27f4533429a882c4d7e2098d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:53 +0000
Subject: [PATCH 30/53] fix: report errors found while cleaning a line at that
 line

The line was counted after its comments and macro arguments had been
processed, so errors from that step named the previous line.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4802c55..545aeb4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -662,8 +662,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From f2118429bdef7981696c46daa5480fb505b780c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:49 +0000
Subject: [PATCH 31/53] fix: do not read before the expression when reporting
 an illegal character

The debug output showed the character in front of the illegal one even
when the expression starts with it. The recursion counter is given back
as on the other ways out, so that many illegal characters do not end in
a bogus recursion error.
---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 6f0241f..24c0599 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1036,9 +1036,10 @@ const char *pushsymbol(const char *str)
         );
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
-        printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
+        printf("char = '%c' %d\n", *str, *str);
         if (F_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
+        symbolRecursionCount--;
         return str+1;
     }
 
-- 
2.43.0


From 3e10cea8cfbced11330b5db804aa23e966946b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:03 +0000
Subject: [PATCH 32/53] fix: reject SETSYM with an operand that is not a string

The name buffer was used without having been filled in.
---
 src/ops.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index ee49ee6..fc26a2d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1314,8 +1314,13 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
         return;
     }
 
-    if (sym->flags & SYM_STRING)
-        strcpy(str,sym->string);
+    if (!(sym->flags & SYM_STRING))
+    {
+        asmerr( ERROR_TYPE_MISMATCH, false, NULL );
+        FreeSymbolList(sym);
+        return;
+    }
+    strcpy(str,sym->string);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From fb743ca648e9f0c69f2977f63e8e83d81d3b7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:16 +0000
Subject: [PATCH 33/53] fix: make the parse buffer large enough for any source
 line

---
 src/globals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..b9023be 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[MAXLINE*8];
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
-- 
2.43.0


From 3cab03397ff86e06afe88cf2c5d02103fad1efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:17 +0000
Subject: [PATCH 34/53] fix: bound error message pieces to their buffers

---
 src/main.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 545aeb4..4d77eb1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -68,9 +68,9 @@ void passbuffer_cleanup(void);
 
 int mlflag = 0; // multi-line comments
 
-static char erroradd1[500]; // temp error holders
-static char erroradd2[500];
-static char erroradd3[500];
+static char erroradd1[MAXLINE*2]; // temp error holders
+static char erroradd2[MAXLINE*2];
+static char erroradd3[MAXLINE*2];
 
 /* Table encapsulates errors, descriptions, and fatality flags. */
 
@@ -1658,7 +1658,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s (%lu): error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s (%lu): error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s (%lu): error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             case ERRORFORMAT_DILLON:
@@ -1674,7 +1674,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "line %7ld %-10s ",
                         pincfile->lineno, pincfile->name);
-                sprintf(erroradd1, "line %7ld %-10s ",
+                snprintf(erroradd1, sizeof(erroradd1), "line %7ld %-10s ",
                     pincfile->lineno, pincfile->name); // -FXQ
                 break;
             case ERRORFORMAT_GNU:
@@ -1685,7 +1685,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s:%lu: error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s:%lu: error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s:%lu: error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             default:
@@ -1700,8 +1700,8 @@ int asmerr(int err, bool bAbort, const char *sText )
             fprintf(error_file, str, sText ? sText : "");
             fprintf(error_file, "\n");
         }
-        sprintf(erroradd2, str, sText ? sText : "");
-        sprintf(erroradd3, "\n");
+        snprintf(erroradd2, sizeof(erroradd2), str, sText ? sText : "");
+        snprintf(erroradd3, sizeof(erroradd3), "\n");
 
 	passbuffer_update(ERRORBUF,erroradd1);
 	passbuffer_update(ERRORBUF,erroradd2);
-- 
2.43.0


From d6693027f99f692419ab4ba42a9692e874862044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:18 +0000
Subject: [PATCH 35/53] fix: enlarge the listing line buffers

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4d77eb1..90bc1e8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -843,8 +843,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[MAXLINE*10];
+    static char buf2[MAXLINE*10];
     const char *ptr;
     const char *dot;
     int i, j;
-- 
2.43.0


From c01a0690dfca46496c6a69224da56f39acbc8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:39 +0000
Subject: [PATCH 36/53] fix: leave room for the character cleanup() may add to
 a full line

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 90bc1e8..3537dfb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -408,7 +408,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE];
+    char buf[MAXLINE+2];
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -1473,7 +1473,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE];
+    char buf[MAXLINE+2];
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From 078272906d2598a784c61a5b52124c7af5078a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:40 +0000
Subject: [PATCH 37/53] fix: look up operation names of any length

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 3537dfb..6196d1b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1430,7 +1430,7 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[MAXLINE];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
-- 
2.43.0


From bf74d0966310bb3617029a8b96650090657664bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:41 +0000
Subject: [PATCH 38/53] fix: do not overrun message buffers with long operands

---
 src/exp.c | 4 ----
 src/ops.c | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 24c0599..e49d26f 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -384,8 +384,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -491,8 +489,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/ops.c b/src/ops.c
index fc26a2d..5db4e70 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -158,7 +158,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     SYMBOL *symbase;
     int     opsize;
     bool	byteRequested;
-    char sBuffer[128];
+    char sBuffer[MAXLINE*2];
 
     Csegment->flags |= SF_REF;
     programlabel();
-- 
2.43.0


From fc4579c8a6cafaee77083e15878b781ac5bc1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:59 +0000
Subject: [PATCH 39/53] fix: keep long strings, dynamic names and macro names
 inside their buffers

---
 src/ops.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 5db4e70..3ab9ee3 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1176,12 +1176,12 @@ v_echo(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
-    char buf[256];
+    char buf[MAXLINE];
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                snprintf(buf, sizeof(buf), "%s", s->string);
             else
                 sprintf(buf,"$%lx", s->value);
             if (FI_listfile)
@@ -1201,7 +1201,7 @@ void v_set(char *str, MNEMONIC *dummy)
 {
 
     SYMBOL *sym, *lab;
-    char dynamicname[257];
+    char dynamicname[MAXLINE*8];
     int i = 0,j;
     int setundefined = 0;
 
@@ -1339,7 +1339,7 @@ v_execmac(char *str, MACRO *mac)
 
     if (Mlevel == MAXMACLEVEL) {
         char errMsg[256];
-        sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
+        snprintf(errMsg, sizeof(errMsg), " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
     }
-- 
2.43.0


From 760f7666a0d77df5639e5c206c6bf1fd0c25ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:00 +0000
Subject: [PATCH 40/53] fix: count the terminating NUL when growing the pass
 buffers

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6196d1b..7db5492 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1839,7 +1839,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1;
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
-- 
2.43.0


From 33de04dad7a8beeca885cabd617ff877e5df8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:54 +0000
Subject: [PATCH 41/53] fix: check the operator stack before pushing an
 operator

---
 src/exp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index e49d26f..32e5d42 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -752,6 +752,10 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
+    if (Opi >= MAXOPS) {
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
+        return;
+    }
     Opdis[Opi] = func;
     Oppri[Opi] = pri;
     ++Opi;
-- 
2.43.0


From cd4f09d1f7657196c2b5656f8e43a868e9442fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:15 +0000
Subject: [PATCH 42/53] fix: allocate include paths by their length

---
 src/ops.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 3ab9ee3..095e093 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1663,17 +1663,16 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
-
     for (incdir = incdirlist; incdir; incdir = incdir->next) {
+        buf = zmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
         f = fopen(buf, mode);
+        free(buf);
         if (f)
             break;
     }
 
-    free(buf);
     return f;
 }
 
-- 
2.43.0


From 3303c49cb9f25e84c96471f93b8479c7402671f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:16 +0000
Subject: [PATCH 43/53] fix: write out DC data which does not fit the code
 buffer

---
 src/ops.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 095e093..7600170 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -710,6 +710,16 @@ v_err(char *str, MNEMONIC *dummy)
     exit(1);
 }
 
+/* make room for another item, which takes up to four bytes */
+static void
+flushgen(void)
+{
+    if (Glen + 4 > (int)sizeof(Gen)) {
+        generate();
+        Glen = 0;
+    }
+}
+
 void
 v_dc(char *str, MNEMONIC *mne)
 {
@@ -775,6 +785,7 @@ v_dc(char *str, MNEMONIC *mne)
     }
     sym = eval(str, 0);
     for (; sym; sym = sym->next) {
+        flushgen();
         value = sym->value;
         if (sym->flags & SYM_UNKNOWN) {
             ++Redo;
@@ -783,6 +794,7 @@ v_dc(char *str, MNEMONIC *mne)
         if (sym->flags & SYM_STRING) {
             unsigned char *ptr = (void *)sym->string;
             while ((value = *ptr) != 0) {
+                flushgen();
                 if (vmode) {
                     setspecial(value, 0);
                     tmp = eval(macstr, 0);
-- 
2.43.0


From 2eacf40c0a86096e379f25d46d577cf55177f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:43 +0000
Subject: [PATCH 44/53] fix: treat the current address as unknown in command
 line options

---
 src/symbols.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/symbols.c b/src/symbols.c
index aef90de..1a550ff 100644
--- a/src/symbols.c
+++ b/src/symbols.c
@@ -53,7 +53,12 @@ SYMBOL *findsymbol(const char *str, int len)
     {
         if (len == 1)
         {
-            if (Csegment->flags & SF_RORG)
+            if (Csegment == NULL)   /* in a command line option */
+            {
+                org.flags = SYM_UNKNOWN;
+                org.value = 0;
+            }
+            else if (Csegment->flags & SF_RORG)
             {
                 org.flags = Csegment->rflags & SYM_UNKNOWN;
                 org.value = Csegment->rorg;
-- 
2.43.0


From 81cea8901c0f0229a06ebeb3412131c903b366d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:01 +0000
Subject: [PATCH 45/53] fix: allocate the stop flags for at least one pass

---
 src/main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7db5492..94c92db 100644
--- a/src/main.c
+++ b/src/main.c
@@ -575,12 +575,12 @@ nofile:
         goto fail;
     }
 
-    if (nMaxPasses < 0)
-        nMaxPasses = 0;
+    if (nMaxPasses < 1)
+        nMaxPasses = 1;
 
     // we dont count from zero ! (for fewer code changes), and the error about too many
     // passes belongs to the pass after the last one
-    bStopAtEnd = (bool *)zmalloc((nMaxPasses+2) * sizeof(bool));
+    bStopAtEnd = (bool *)zmalloc(((size_t)nMaxPasses+2) * sizeof(bool));
 
     /*    INITIAL SEGMENT */
 
-- 
2.43.0


From 464ba0a7549f7d3e00422502abb56c0a30bff83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:18 +0000
Subject: [PATCH 46/53] fix: report ALIGN 0 instead of dividing by zero

---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 7600170..4c9ab24 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1050,6 +1050,10 @@ v_align(char *str, MNEMONIC *dummy)
             ++Redo;
             Redo_why |= REASON_ALIGN_RELOCATABLE_ORIGIN_NOT_KNOWN;
         }
+        else if (sym->value == 0)
+        {
+            asmerr( ERROR_DIVISION_BY_0, true, NULL );
+        }
         else
         {
             long n = sym->value - (Csegment->rorg % sym->value);
@@ -1063,6 +1067,10 @@ v_align(char *str, MNEMONIC *dummy)
             ++Redo;
             Redo_why |= REASON_ALIGN_NORMAL_ORIGIN_NOT_KNOWN;
         }
+        else if (sym->value == 0)
+        {
+            asmerr( ERROR_DIVISION_BY_0, true, NULL );
+        }
         else
         {
             long n = sym->value - (Csegment->org % sym->value);
-- 
2.43.0


From 9863fadec9d4827b5633daab9285142a47f240e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:48:44 +0000
Subject: [PATCH 47/53] fix: forget generated bytes of lines hidden by LIST
 LOCALOFF

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 94c92db..fe87c63 100644
--- a/src/main.c
+++ b/src/main.c
@@ -851,7 +851,11 @@ static void outlistfile(const char *comment)
 
 
     if ( pIncfile->flags & INF_NOLIST )
+    {
+        Glen = 0;
+        Extstr = NULL;
         return;
+    }
 
     xtrue = (Ifstack->xtrue && Ifstack->acctrue) ? ' ' : '-';
     c = (Pflags & SF_BSS) ? 'U' : ' ';
-- 
2.43.0


From a7cbf33261f9ec4769af909a16cf7db46039dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:30:24 +0000
Subject: [PATCH 48/53] fix: close the and_bits macro of the 68HC908 macro file

---
 machines/68hc908/macros.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/macros.asm b/machines/68hc908/macros.asm
index c126b10..e63d232 100644
--- a/machines/68hc908/macros.asm
+++ b/machines/68hc908/macros.asm
@@ -68,7 +68,7 @@ _bLoop$:
 		ldA.8  {1}
 		and    {2}
 		stA.8  {1}
-	.macro
+	.endm
 
 
 	.macro or_bits		; {reg_addr},{bitmask}
-- 
2.43.0


From 65e4f163e7e14d74e27b4c787b0be1dab3720d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:30:26 +0000
Subject: [PATCH 49/53] fix: remove a stray tab marker from the 68HC11 register
 file

---
 machines/68hc11/register.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc11/register.asm b/machines/68hc11/register.asm
index 06efb21..410226c 100644
--- a/machines/68hc11/register.asm
+++ b/machines/68hc11/register.asm
@@ -1,7 +1,7 @@
 
 
 RAM_END			.EQU    (DOWNLOAD_SIZE-1)
-FLASH_END		.EQU<-->(FLASH_START + FLASH_SIZE)
+FLASH_END		.EQU	(FLASH_START + FLASH_SIZE)
 
 
 ;~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~;
-- 
2.43.0


From 0525e6242e7cef365384173f75c4d82a61b7fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:30:27 +0000
Subject: [PATCH 50/53] fix: include the existing register file from
 mc68hc908jk1.asm

---
 machines/68hc908/mc68hc908jk1.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/mc68hc908jk1.asm b/machines/68hc908/mc68hc908jk1.asm
index c9b90eb..4ee0027 100644
--- a/machines/68hc908/mc68hc908jk1.asm
+++ b/machines/68hc908/mc68hc908jk1.asm
@@ -18,7 +18,7 @@ FLASH_START	.EQU	$F600
 FLASH_SIZE	.EQU	1536
 	.ENDIF
 
-	#include	"reg68hc908jk1.asm"
+	#include	"reg68hc908jk3.asm"
 ;
 ;  Register Section Bits FLCR
 ;
-- 
2.43.0


From 5958459ad579c51e7fd895b64d7ec7c831672f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:30:28 +0000
Subject: [PATCH 51/53] fix: indent MAC and ENDM in the Channel F macro file

---
 machines/channel-f/macro.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/channel-f/macro.h b/machines/channel-f/macro.h
index 0c52353..326eb94 100644
--- a/machines/channel-f/macro.h
+++ b/machines/channel-f/macro.h
@@ -34,10 +34,10 @@ VERSION_MACRO	= 101
 ; then inserts the NOP that takes up the next byte, which places
 ; the Channel F at the cartridge entry point, $802.
 
-MAC CARTRIDGE_START
+	MAC CARTRIDGE_START
 CartridgeStart: db $55                 ; valid cart indicator
                 NOP                      ; unused byte
-ENDM
+	ENDM
 
 ;-------------------------
 ; PROMPTS_NO_T
@@ -46,7 +46,7 @@ ENDM
 ; but this code doesn't have a "T?" prompt, so it's useful in games that
 ; don't have time limits or settings.
 
-MAC PROMPTS_NOT
+	MAC PROMPTS_NOT
 prompts SUBROUTINE
         LR   K,P                 ; 
                 PI   pushk               ; 
@@ -71,7 +71,7 @@ prompts SUBROUTINE
                 as 4 ;add the mode to the game #
                 LR   (IS),A              ; 
                 BF   $0,.prompts2        ; 
-ENDM
+	ENDM
 
 
 
-- 
2.43.0


From 963c4d400e88b5c09f1dc0f78302e6439f22f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:30:30 +0000
Subject: [PATCH 52/53] fix: make INCLUDE_DEPRECATED of ves.h a constant and
 spell COLOUR_RED

---
 machines/channel-f/ves.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machines/channel-f/ves.h b/machines/channel-f/ves.h
index a836482..e1c0a8d 100644
--- a/machines/channel-f/ves.h
+++ b/machines/channel-f/ves.h
@@ -33,7 +33,7 @@ VERSION_VES		= 101
 
 
 
-INCLUDE_DEPRECATED                 ; remove to DISABLE deprecated equates
+INCLUDE_DEPRECATED = 1             ; remove to DISABLE deprecated equates
 
 
 ;-------------------------------------------------------------------------------
@@ -56,6 +56,7 @@ COLOR_BACKGROUND    = $C0
 
 ; Alternate (European) spellings...
 
+COLOUR_RED          = COLOR_RED
 COLOUR_RES          = COLOR_RED
 COLOUR_BLUE         = COLOR_BLUE
 COLOUR_GREEN        = COLOR_GREEN
-- 
2.43.0


From e8ef1af76b82159e9d7208f35e5223c5a4039e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:31:44 +0000
Subject: [PATCH 53/53] fix: show the final addresses in the segment table

---
 src/main.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index fe87c63..048e765 100644
--- a/src/main.c
+++ b/src/main.c
@@ -313,8 +313,8 @@ static void ShowSegments(void)
         bss = (seg->flags & SF_BSS) ? "[u]" : "   ";
 
         printf( sFormat, seg->name, bss,
-            sftos(seg->initorg, seg->initflags), sftos(seg->initrorg, seg->initrflags),
-            sftos(seg->org, seg->flags), sftos(seg->rorg, seg->rflags) );
+            sftos(seg->initorg, seg->initflags & SF_UNKNOWN), sftos(seg->initrorg, seg->initrflags & SF_UNKNOWN),
+            sftos(seg->org, seg->flags & SF_UNKNOWN), sftos(seg->rorg, seg->rflags & SF_UNKNOWN) );
     }
     puts("----------------------------------------------------------------------");
 
@@ -889,13 +889,12 @@ static void outlistfile(const char *comment)
 
 char *sftos(long val, int flags)
 {
-    static char buf[ MAX_SYM_LEN + 14 ];
-    static char c;
-    char *ptr = (c) ? buf : buf + sizeof(buf) / 2;
+    /* several results are in use at the same time, see ShowSegments() */
+    static char buf[ 4 ][ 64 ];
+    static int c;
+    char *ptr = buf[ c ];
 
-    memset( buf, 0, sizeof( buf ) );
-
-    c = 1 - c;
+    c = ( c + 1 ) % 4;
 
     sprintf(ptr, "%04lx ", val);
 
-- 
2.43.0

