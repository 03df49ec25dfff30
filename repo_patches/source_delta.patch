From bcf15d20041568f8cc4752bc6d56fa8c6bf8f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 01/70] fix: denied file read in an interp without argv
 dereferenced NULL

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..3ed05f6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -522,7 +522,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
         if (interp->isSafe) {
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From 33f6ae28ae04de5e19b38a50fb6758b30ff7c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 02/70] fix: Zvfs.create must not remove an archive it could
 not open

---
 src/jsiZvfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cbeb720..cd81f21 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1991,7 +1991,7 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto doexit;
         }
         chan = Jsi_Open(interp, Archive, "wb+");
-        create = 1;
+        create = (chan != 0);
     }
     if (chan==0 ) {
         rc = Jsi_LogError("archive create failed for: %s", SS(Archive));
-- 
2.43.0


From 16cb4df477f840e309843e57ceb20ff56bb631fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/70] fix: Sqlite backup, restore and ATTACH honour the safe
 interp file access rules

---
 src/jsiSqlite.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 395ec53..0b6735f 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1484,6 +1484,20 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     Jsi_DecrRefCount(interp, ret);
 }
 
+/* In a safe interp ATTACH (and VACUUM INTO) may only name files the interp can access. */
+static bool dbAttachAllowed(Jsi_Db *db, const char *file) {
+    Jsi_Interp *interp = db->interp;
+    if (!Jsi_InterpSafe(interp) || (file && (!*file || !Jsi_Strcmp(file, ":memory:")))) return 1;
+    if (!file) return 0;
+    Jsi_StatBuf st = {};
+    Jsi_Value *path = Jsi_ValueNewStringDup(interp, file);
+    Jsi_IncrRefCount(interp, path);
+    bool ok = (Jsi_InterpAccess(interp, path, (db->readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE)) == JSI_OK
+        && (Jsi_Lstat(interp, path, &st) == 0 || Jsi_InterpAccess(interp, path, JSI_INTACCESS_CREATE) == JSI_OK));
+    Jsi_DecrRefCount(interp, path);
+    return ok;
+}
+
 /*
 ** This is the authentication function.  It appends the authentication
 ** type code and the two arguments to zCmd[] then invokes the result
@@ -1503,7 +1517,8 @@ static int dbAuthCallback(
     const char *zReply;
     Jsi_Db *db = (Jsi_Db*)pArg;
     Jsi_Interp *interp = db->interp;
-    if( db->disableAuth ) return SQLITE_OK;
+    if( code == SQLITE_ATTACH && !dbAttachAllowed(db, zArg1) ) return SQLITE_DENY;
+    if( !db->onAuth || db->disableAuth ) return SQLITE_OK;
 
     switch( code ) {
     case SQLITE_COPY              :
@@ -3348,6 +3363,10 @@ static Jsi_RC SqliteRestoreCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (zSrcFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
     }
+    if (vFile && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_READ) != JSI_OK) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogErrorExt("Safe accces denied");
+    }
     rc = sqlite3_open_v2(zSrcFile, &pSrc, SQLITE_OPEN_READONLY, 0);
 
     if( rc!=SQLITE_OK ) {
@@ -3481,6 +3500,14 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (zDestFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
     }
+    if (vFile) {
+        Jsi_StatBuf st = {};
+        if (Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_WRITE) != JSI_OK
+            || (Jsi_Lstat(interp, vFile, &st) != 0 && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE) != JSI_OK)) {
+            Jsi_DSFree(&dStr);
+            return Jsi_LogErrorExt("Safe accces denied");
+        }
+    }
     rc = sqlite3_open(zDestFile, &pDest);
     if( rc!=SQLITE_OK ) {
         Jsi_LogErrorExt("cannot open target database %s: %s", zDestFile, sqlite3_errmsg(pDest));
@@ -3510,7 +3537,7 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    if (Jsi_InterpSafe(db->interp) || (db->onAuth && (!ojdb || !ojdb->onAuth)) )
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
-- 
2.43.0


From 2ae5825a161a69ae71116336d186638dca4b5190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 04/70] fix: File.exists/isfile/... and File.glob honour the
 safe interp read dirs

---
 src/jsiFileCmds.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..378d930 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -166,6 +166,7 @@ static Jsi_RC _FileSubstat(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     int rc;
     Jsi_StatBuf st = {}, lst = {};
     char smode[30];
+    SAFEACCESS(fnam, 0, 0)
     st.st_uid = -1;
     rc = Jsi_Stat(interp, fnam, &st) | Jsi_Lstat(interp, fnam, &lst);
     switch (sub) {
@@ -975,6 +976,10 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     if (dcp) {
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
+    if (interp->isSafe && Jsi_InterpAccess(interp, rpPath, JSI_INTACCESS_READ) != JSI_OK) {
+        rc = Jsi_LogError("read access denied by safe interp: %s", Jsi_ValueString(interp, rpPath, NULL));
+        goto done;
+    }
     if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
         if (opts->recurse && deep) goto done;
         Jsi_LogError("bad directory");
-- 
2.43.0


From 10a739969d5d89f20808e0038af93411bed478fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 05/70] fix: over-long file names overflowed the real-path
 buffer

---
 src/jsiFilesys.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3ed05f6..3ecf973 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1409,10 +1409,14 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
         }
     }
     if (!apath) {
-        if (newname)
-            Jsi_Strcpy(apath=newname, npath);
-        else
+        if (!newname)
             apath = Jsi_Strdup(npath);
+        else if (Jsi_Strlen(npath)<PATH_MAX)
+            Jsi_Strcpy(apath=newname, npath);
+        else {
+            Jsi_DSFree(&dStr); Jsi_DSFree(&eStr);
+            return NULL;
+        }
 #ifndef __WIN32
         /* If path not exists on unix we try to eliminate ../ and /./ etc.*/
         NormalizeUnixPath(interp, apath);
-- 
2.43.0


From 262434221f6a5c3dae744dbc7b42aadf3eb5a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 06/70] fix: access checks for a missing file resolve symlinks
 in its existing parent directories

---
 src/jsiFilesys.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3ecf973..bbebe91 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1355,6 +1355,24 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
     Jsi_DSFree(&dStr);
     Jsi_DSFree(&eStr);
 }
+
+/* Resolve symlinks in the leading part that exists, of a path that does not. */
+static char *ResolveUnixParent(char *path, char *newname) {
+    char rbuf[PATH_MAX], *rp = NULL, *cp = path + Jsi_Strlen(path);
+    while (!rp && cp > path) {
+        while (--cp > path && *cp != '/');
+        if (cp == path) return path;
+        *cp = 0;
+        rp = realpath(path, rbuf);
+        *cp = '/';
+    }
+    if (!rp || Jsi_Strlen(rbuf) + Jsi_Strlen(cp) >= PATH_MAX) return path;
+    if (rbuf[1] == 0) rbuf[0] = 0;
+    Jsi_Strcpy(rbuf + Jsi_Strlen(rbuf), cp);
+    if (newname) return Jsi_Strcpy(newname, rbuf);
+    Jsi_Free(path);
+    return Jsi_Strdup(rbuf);
+}
 #endif
 
 char * Jsi_GetCwd(Jsi_Interp *interp, Jsi_DString *cwdPtr) {
@@ -1420,6 +1438,7 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
 #ifndef __WIN32
         /* If path not exists on unix we try to eliminate ../ and /./ etc.*/
         NormalizeUnixPath(interp, apath);
+        apath = ResolveUnixParent(apath, newname);
 #endif
     }
 #ifdef __WIN32
-- 
2.43.0


From ed61dccd7883ef7ef9de5666514a24e7e5aaf8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 07/70] fix: a safe interp could load shared libraries

---
 src/jsiLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiLoad.c b/src/jsiLoad.c
index faf5d39..097d91d 100644
--- a/src/jsiLoad.c
+++ b/src/jsiLoad.c
@@ -44,7 +44,7 @@ typedef struct LoadData {
  */
 Jsi_RC Jsi_LoadLibrary(Jsi_Interp *interp, const char *pathName, bool noInit)
 {
-    if (interp->noLoad)
+    if (interp->noLoad || interp->isSafe)
         return Jsi_LogError("shared lib load is disabled");
 #ifdef __WIN32
     HMODULE handle = LoadLibrary(pathName);
-- 
2.43.0


From 55dfd21e447321a6d13054fb2459860250321a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 08/70] fix: restricted exec allowed extra shell commands after
 a newline

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..86ed815 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1528,7 +1528,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (restricted || edata.noRedir) {
         // Sanity check command string to disallow shell escapes, redirection, etc.
-        if (strcspn(cp, "<>|;&$`=") != strlen(cp))
+        if (strcspn(cp, "<>|;&$`=\n") != strlen(cp))
             return Jsi_LogError("restricted chars in exec string: %s", cp);
     }
     int isbg = 0, ec = 0;
-- 
2.43.0


From 77c7db1e635d59c030b95d268619d14c4fb7be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 09/70] fix: lockDown could be changed after creation, enabling
 exec of fossil in safe interps

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..15f248d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -95,7 +95,7 @@ static Jsi_OptionSpec InterpOptions[] = {
     JSI_OPT(STRKEY,Jsi_Interp, jsppChars,   .help="Line preprocessor when sourcing files. Line starts with first char, and either ends with it, or matches string"),
     JSI_OPT(FUNC,  Jsi_Interp, jsppCallback,.help="Command to preprocess lines that match jsppChars. Call func(interpName:string, opCnt:number)"),
     JSI_OPT(INT,   Jsi_Interp, lockTimeout, .help="Thread time-out for mutex lock acquires (milliseconds)" ),
-    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to" ),
+    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to", jsi_IIOF ),
     JSI_OPT(CUSTOM,Jsi_Interp, logOpts,     .help="Options for log output to add file/line/time", .flags=0, .custom=Jsi_Opt_SwitchSuboption, .data=jsi_InterpLogOptions),
     JSI_OPT(CUSTOM,Jsi_Interp, log,         .help="Logging flags", .flags=JSI_OPT_CUST_NOCASE,  .custom=Jsi_Opt_SwitchBitset,  .data=jsi_LogCodes),
     JSI_OPT(INT,   Jsi_Interp, maxDepth,    .help="Depth limit of recursive function calls (1000)", .flags=JSI_OPT_LOCKSAFE),
-- 
2.43.0


From 98868528506577edfbf1619d5697026de8d774aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 10/70] fix: a safe interp could reach any directory by
 sourcing a main script into a sub-interp

---
 src/jsiInterp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 15f248d..6e42a8f 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1416,8 +1416,11 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
         Jsi_LogWarn("non-threaded sub-interp created by different thread than parent");
 #endif
     }
-    if (interp->safeMode != jsi_safe_None)
-        interp->isSafe = interp->startSafe = 1;
+    if (interp->safeMode != jsi_safe_None) {
+        interp->isSafe = 1;
+        if (!parent || !parent->isSafe)
+            interp->startSafe = 1;
+    }
     if (!interp->parent) {
         if (interp->isSafe)
             interp->startSafe = 1;
-- 
2.43.0


From 3c5572ee63cb017bc44055dde7faa54f82d832b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 11/70] fix: lockDown or confFile given to a sub-interp of a
 safe interp granted new directories

---
 src/jsiInterp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 6e42a8f..03b8d55 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1371,12 +1371,12 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     if (parent && parent->isSafe) {
         interp->isSafe = 1;
         interp->safeMode = parent->safeMode;
-        if (interp->safeWriteDirs || interp->safeReadDirs || interp->safeExecPattern) {
+        if (interp->safeWriteDirs || interp->safeReadDirs || interp->safeExecPattern || interp->lockDown || interp->confFile) {
             Jsi_LogWarn("ignoring safe* options in safe sub-sub-interp");
             if (interp->safeWriteDirs) Jsi_DecrRefCount(interp, interp->safeWriteDirs);
             if (interp->safeReadDirs) Jsi_DecrRefCount(interp, interp->safeReadDirs);
             interp->safeWriteDirs = interp->safeReadDirs = NULL;
-            interp->safeExecPattern = NULL;
+            interp->safeExecPattern = interp->lockDown = interp->confFile = NULL;
         }
         // Enforce LOCKSAFE options.
         interp->maxDepth = parent->maxDepth;
-- 
2.43.0


From dbebfe29fea40ed3fd4f90f371b012f99aeda534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 12/70] fix: option noInput did not disable console.input

---
 src/jsiCmds.c   | 2 ++
 src/jsiInterp.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 86ed815..059233e 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -19,6 +19,8 @@ static Jsi_RC consoleInputCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     char buf[1024];
     char *cp, *p = buf;
     buf[0] = 0;
+    if (interp->noInput)
+        return Jsi_LogError("input disallowed by Interp.noInput option");
     Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
     if (v) {
         if (interp->isSafe)
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 03b8d55..2a76e28 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1388,6 +1388,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
         interp->memLeakCnt = parent->memLeakCnt;
         if (parent->noLoad) interp->noLoad = 1;
         if (parent->noNetwork) interp->noNetwork = 1;
+        if (parent->noInput) interp->noInput = 1;
         if (parent->noStderr) interp->noStderr = 1;
         if (parent->noSubInterps) interp->noSubInterps = 1;
     }
-- 
2.43.0


From e7cf36064195d749e13dae18616ef0deba6b52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 13/70] fix: commands unavailable to safe interps (Signal) were
 created in lockDown interps

---
 src/jsiInterp.c | 50 ++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 2a76e28..db0f7e8 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1528,6 +1528,31 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     if (interp != jsiIntData.mainInterp && !parent)
         Jsi_HashSet(jsiIntData.interpsTbl, interp, NULL);
 
+    if (interp->lockDown) {
+        struct stat sb;
+        const char* path = interp->lockDown;
+        if (!path || stat(path, &sb)
+            || !((S_ISREG(sb.st_mode) && !access(path, W_OK)) || (S_ISDIR(sb.st_mode) && !access(path, X_OK)))) {
+            Jsi_LogError("Lockdown path must exist and be a writable file or executable dir: %s", path);
+            Jsi_InterpDelete(interp);
+            return NULL;
+        }
+        interp->isSafe = true;
+        interp->safeMode = jsi_safe_Lockdown;
+        if (interp->safeWriteDirs) {
+            Jsi_LogWarn("Overriding safeWriteDirs");
+            Jsi_DecrRefCount(interp, interp->safeWriteDirs);
+        }
+        const char *vda[2] = {};
+        char npath[PATH_MAX];
+        vda[0] = Jsi_FileRealpathStr(interp, path, npath);
+        interp->safeWriteDirs = Jsi_ValueNewArray(interp, vda, 1);
+        Jsi_IncrRefCount(interp, interp->safeWriteDirs);
+        if (!interp->safeReadDirs) {
+            interp->safeReadDirs = interp->safeWriteDirs;
+            Jsi_IncrRefCount(interp, interp->safeReadDirs);
+        }
+    }
     if (!interp->isSafe) {
         JSIDOINIT(Load);
 #if JSI__SIGNAL==1
@@ -1577,31 +1602,6 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
             return NULL;
         }
     }
-    if (interp->lockDown) {
-        struct stat sb;
-        const char* path = interp->lockDown;
-        if (!path || stat(path, &sb)
-            || !((S_ISREG(sb.st_mode) && !access(path, W_OK)) || (S_ISDIR(sb.st_mode) && !access(path, X_OK)))) {
-            Jsi_LogError("Lockdown path must exist and be a writable file or executable dir: %s", path);
-            Jsi_InterpDelete(interp);
-            return NULL;
-        }
-        interp->isSafe = true;
-        interp->safeMode = jsi_safe_Lockdown;
-        if (interp->safeWriteDirs) {
-            Jsi_LogWarn("Overriding safeWriteDirs");
-            Jsi_DecrRefCount(interp, interp->safeWriteDirs);
-        }
-        const char *vda[2] = {};
-        char npath[PATH_MAX];
-        vda[0] = Jsi_FileRealpathStr(interp, path, npath);
-        interp->safeWriteDirs = Jsi_ValueNewArray(interp, vda, 1);
-        Jsi_IncrRefCount(interp, interp->safeWriteDirs);
-        if (!interp->safeReadDirs) {
-            interp->safeReadDirs = interp->safeWriteDirs;
-            Jsi_IncrRefCount(interp, interp->safeReadDirs);
-        }
-    }
     if (argc > 0) {
         char *ss = argv0;
         char epath[PATH_MAX] = ""; // Path of executable
-- 
2.43.0


From 94fe4b0fdec2b7dcaebf64ffbb3e239228ee444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 14/70] fix: elements of init-only array options, eg.
 safeReadDirs, could be changed through Interp.conf

---
 src/jsiOptions.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1a2f903..b721657 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -779,7 +779,11 @@ jsi_GetOption(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, void* record, const c
     case JSI_OPTION_VALUE:
     case JSI_OPTION_REGEXP:
     case JSI_OPTION_ARRAY:
-        if (*(Jsi_Value **)ptr)
+        if (*(Jsi_Value **)ptr && specPtr->id == JSI_OPTION_ARRAY && (specPtr->flags&JSI_OPT_INIT_ONLY)) {
+            Jsi_Value *dupVal = Jsi_ValueDupJSON(interp, *(Jsi_Value **)ptr);
+            Jsi_ValueCopy(interp, *valuePtr, dupVal);
+            Jsi_DecrRefCount(interp, dupVal);
+        } else if (*(Jsi_Value **)ptr)
             Jsi_ValueCopy(interp, *valuePtr, *(Jsi_Value **)ptr);
         else
             Jsi_ValueMakeNull(interp, valuePtr);
-- 
2.43.0


From ded00ea997aafd266528a6d5598afc63d088215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 15/70] fix: resetting a bool option stored an uninitialized
 value

---
 src/jsiOptions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index b721657..f536325 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -268,9 +268,11 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
 
     case JSI_OPTION_BOOL: {
-        if (!argValue)
+        if (!argValue) {
             *(char*)ptr = 0;
-        else if (!Jsi_ValueIsBoolean(interp, argValue))
+            break;
+        }
+        if (!Jsi_ValueIsBoolean(interp, argValue))
             goto bail;
         Jsi_GetBoolFromValue(interp, argValue, &bn);
         *(char*)ptr = bn;
-- 
2.43.0


From d110e025e8e5154cee2df1134b3e6d8a26cda6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 16/70] fix: setting a sub-option group to null changed its
 read-only and init-only options

---
 src/jsiOptions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index f536325..3d92ba0 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -953,6 +953,9 @@ Jsi_OptionsProcess(Jsi_Interp *interp, Jsi_OptionSpec *specs,  void *rec, Jsi_Va
     if (args == NULL || args->vt == JSI_VT_NULL) {
         for (specPtr = specs; specPtr->id>=JSI_OPTION_BOOL && specPtr->id < JSI_OPTION_END && specPtr->name; specPtr++) {
             specPtr->flags &= ~JSI_OPT_IS_SPECIFIED;
+            if ((JSI_OPTS_IS_UPDATE&flags) && ((specPtr->flags&(JSI_OPT_READ_ONLY|JSI_OPT_INIT_ONLY))
+                || (isSafe && (specPtr->flags&JSI_OPT_LOCKSAFE))))
+                continue;
             if (jsi_SetOption(interp, specPtr, (char*)specPtr->name, record, NULL, flags, isSafe) != JSI_OK)
                 return -1;
         }
-- 
2.43.0


From b207150065e9620e199ef347c8fd79e694c1a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 17/70] fix: option width of Sqlite queries was stored outside
 of the option record

---
 src/jsiOptions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 3d92ba0..41e902b 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1175,7 +1175,7 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 {
     if (inStr)
         return JSI_ERROR;
-    Jsi_Value **s = (Jsi_Value**)((char*)record) + spec->offset;
+    Jsi_Value **s = (Jsi_Value**)(((char*)record) + spec->offset);
     Jsi_ValueHandlerProc *vfunc = (Jsi_ValueHandlerProc*)spec->data;
     if (!vfunc) 
         return Jsi_LogError("custom value spec did not set data: %s", spec->name);
@@ -1187,9 +1187,10 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
     if (vfunc(interp, inValue, spec, record) != JSI_OK)
         return JSI_ERROR;
-    *s = inValue;
+    Jsi_IncrRefCount(interp, inValue);
     if (*s)
-        Jsi_IncrRefCount(interp, *s);
+        Jsi_DecrRefCount(interp, *s);
+    *s = inValue;
     return JSI_OK;
 }
 
-- 
2.43.0


From 956138a5d85d44ca9784e6bbb15b45cda297ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 18/70] fix: setting a TIME_W option to a number stored the
 bits of a double

---
 src/jsiOptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 41e902b..50f927e 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -455,7 +455,9 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
        if (argValue)
         {
             if (Jsi_ValueIsNumber(interp, argValue)) {
-                Jsi_GetNumberFromValue(interp, argValue, (Jsi_Number*)ptr);
+                Jsi_Number num;
+                Jsi_GetNumberFromValue(interp, argValue, &num);
+                *(Jsi_Wide*)ptr = (Jsi_Wide)num;
             } else {
                 const char *scp;
                 Jsi_Number num;
-- 
2.43.0


From 71f7a5b6a4705fed61bec4fe735b51a635d0b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 19/70] fix: option array elements were accessed beyond the end
 of the array

---
 src/jsiOptions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 50f927e..65a89b8 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -632,6 +632,8 @@ bail:
         int isize, size = specPtr->arrSize;
         if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
             goto bail;
+        if (ul >= size)
+            goto bail;
         isize = isize/size;
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
         if (ce[1] != '.' || !subSpec->data) {
@@ -866,6 +868,8 @@ bail:
         int isize, size = specPtr->arrSize;
         if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
             goto bail;
+        if (ul >= size)
+            goto bail;
         isize = isize/size;
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
         if (ce[1] != '.' || !subSpec->data) {
-- 
2.43.0


From 4f4b588f7b0d6a0fc78536be5da2409bcee65b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 20/70] fix: a rejected NaN or non-string value still changed a
 number or DSTRING option

---
 src/jsiOptions.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 65a89b8..eac81f0 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -350,8 +350,8 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             
         switch (specPtr->id) {
 #define _JSI_OPTSETNTYP(typ, n, ptr) if (!argValue) *(typ*)ptr = 0; else { if (isIncr) n += *((typ *)ptr); \
-            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); \
-            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(*((typ *)ptr)))) return Jsi_LogError("not a number"); }
+            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(typ)(n))) return Jsi_LogError("not a number"); \
+            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); }
 
             case JSI_OPTION_NUMBER: _JSI_OPTSETNTYP(Jsi_Number, nv, ptr); break;
             case JSI_OPTION_LDOUBLE: _JSI_OPTSETNTYP(ldouble, nv, ptr); break;
@@ -419,16 +419,16 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
         
     case JSI_OPTION_DSTRING:
+    {
+        int sLen = 0;
+        const char *scp = "";
+        if (argValue && !Jsi_ValueIsNull(interp, argValue) && !(scp = Jsi_ValueString(interp, argValue, &sLen)))
+            goto bail;
         Jsi_DSInit((Jsi_DString *)ptr);
-        if (argValue && !Jsi_ValueIsNull(interp, argValue))
-        {
-            int sLen;
-            const char *scp = Jsi_ValueString(interp, argValue, &sLen);
-            if (!scp)
-                goto bail;
+        if (sLen)
             Jsi_DSAppendLen((Jsi_DString *)ptr, scp, sLen);
-        }
         break;
+    }
     
     case JSI_OPTION_TIME_D: {
        if (argValue)
-- 
2.43.0


From cf19929b5925b780d22c7b24f42f26977cca63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 21/70] fix: searching a shared hash unlocked the mutex instead
 of locking it, and tree deletes could unlock without locking

---
 src/jsiHash.c | 5 +++--
 src/jsiTree.c | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 6f09d95..0e37674 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -483,9 +483,9 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
     if (tablePtr->opts.freeHashProc && entryPtr->clientData)
         (tablePtr->opts.freeHashProc)(tablePtr->opts.interp, entryPtr, entryPtr->clientData);
 
+    tablePtr->numEntries--;
     if (tablePtr->opts.lockHashProc)
         (*tablePtr->opts.lockHashProc)(tablePtr, 0);
-    tablePtr->numEntries--;
     Jsi_Free(entryPtr);
     return cnt;
 }
@@ -567,8 +567,9 @@ Jsi_HashSearchNext(Jsi_HashSearch *searchPtr)
                 (*tablePtr->opts.lockHashProc)(tablePtr, 0);
             return NULL;
         }
-        if (tablePtr->opts.lockHashProc && locked == 0 && (*tablePtr->opts.lockHashProc)(tablePtr, locked++) != JSI_OK)
+        if (tablePtr->opts.lockHashProc && locked == 0 && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
             return NULL;
+        locked = 1;
         searchPtr->nextEntryPtr =
             tablePtr->buckets[searchPtr->nextIndex];
         searchPtr->nextIndex++;
diff --git a/src/jsiTree.c b/src/jsiTree.c
index ba250f7..7e2c4d9 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -585,13 +585,13 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
     Jsi_TreeEntry* n = entryPtr;
     Jsi_Tree* treePtr = n->treePtr;
 
+    if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
+        return -1;
     if (treePtr->flags.destroyed  || treePtr->flags.nonredblack == 1 /* || entryPtr->f.bits.deletesub */) {
         goto dodel;
     }
     /*printf("DEL(tree=%p,root=%p): (%p)%s\n", treePtr, treePtr->root, entryPtr,(char*)entryPtr->key.string);*/
     /*dumpTree(treePtr);*/
-    if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
-        return -1;
     entryPtr->treePtr->epoch++;
     if (n->left != NULL && n->right != NULL) {
         /* swap key/values delete pred instead */
-- 
2.43.0


From d0e22077bcd4bcb05ffac99e992eeba00c57ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 22/70] fix: lockTimeout was passed as a time in 1970, so
 waiting for a busy interp failed at once

---
 src/jsiUtils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..c98c8d4 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1910,9 +1910,14 @@ static Jsi_RC MutexLock(Jsi_Interp *interp, Jsi_Mutex *mtx) {
     if (timeout<=0)
         pthread_mutex_lock(&mtx->mtx);
     else {
-        struct timespec ts;
-        ts.tv_sec = timeout/1000;
-        ts.tv_nsec = 1000 * (timeout%1000);
+        struct timespec ts; /* Absolute time. */
+        clock_gettime(CLOCK_REALTIME, &ts);
+        ts.tv_sec += timeout/1000;
+        ts.tv_nsec += 1000000L * (timeout%1000);
+        if (ts.tv_nsec >= 1000000000L) {
+            ts.tv_sec++;
+            ts.tv_nsec -= 1000000000L;
+        }
         int rc = pthread_mutex_timedlock(&mtx->mtx, &ts);
         if (rc != 0) {
             Jsi_LogError("lock timed out");
-- 
2.43.0


From e016f41d5ac1a63d13ec4737b808c8612a35b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 23/70] fix: queued calls of another interp were run twice and
 freed twice when nested, and error paths kept locks

---
 src/jsiInterp.c | 70 +++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index db0f7e8..b1925a8 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -278,7 +278,6 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     AliasCmd *ac = (AliasCmd *)funcPtr->cmdSpec->reserved[2];
-    Jsi_Interp *dinterp = ac->dinterp;
     Jsi_Value *nargs = NULL;
     int inc=0, argc = Jsi_ValueGetLength(interp, args);
     if (!ac) {
@@ -286,6 +285,7 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         return JSI_ERROR;
     }
     SIGASSERT(ac,ALIASCMD);
+    Jsi_Interp *dinterp = ac->dinterp;
     bool isthrd = (interp != dinterp && interp->threadId != dinterp->threadId);
     Jsi_Value *nrPtr = Jsi_ValueNew1(dinterp);
 
@@ -294,8 +294,10 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
      else if (argc) {
         if (dinterp == interp)
             Jsi_ValueCopy(interp, nrPtr, args);
-        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK)
+        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK) {
+            Jsi_DecrRefCount(dinterp, nrPtr);
             return JSI_ERROR;
+        }
         if (ac->args && Jsi_ValueGetLength(dinterp, ac->args)) {
             nargs = Jsi_ValueArrayConcat(dinterp, ac->args, nrPtr);
             Jsi_IncrRefCount(dinterp, nargs);
@@ -306,21 +308,20 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
 
     if (isthrd) {
-        /* Post to thread event in sub-interps queue. */
-        if (Jsi_MutexLock(interp, dinterp->QMutex) != JSI_OK)
-            return JSI_ERROR;
-
        /* Is an async call. */
         InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
         // TODO: is s->data inited?
         Jsi_DSInit(&s->data);
-        if (!Jsi_ValueGetDString(interp, nargs, &s->data, JSI_OUTPUT_JSON)) {
-            Jsi_Free(s);
-            return JSI_ERROR;
-        }
+        bool isok = (Jsi_ValueGetDString(interp, nargs, &s->data, JSI_OUTPUT_JSON) != NULL);
         if (inc)
             Jsi_DecrRefCount(dinterp, nargs);
         Jsi_DecrRefCount(dinterp, nrPtr);
+        /* Post to thread event in sub-interps queue. */
+        if (!isok || Jsi_MutexLock(interp, dinterp->QMutex) != JSI_OK) {
+            Jsi_DSFree(&s->data);
+            Jsi_Free(s);
+            return JSI_ERROR;
+        }
         s->acfunc = ac->func;
         Jsi_IncrRefCount(dinterp, ac->func);
         se = dinterp->interpStrEvents;
@@ -340,6 +341,9 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
         if (Jsi_MutexLock(interp, dinterp->Mutex) != JSI_OK) {
             if (interp->subOpts.mutexUnlock) Jsi_MutexLock(interp, interp->Mutex);
+            if (inc)
+                Jsi_DecrRefCount(dinterp, nargs);
+            Jsi_DecrRefCount(dinterp, nrPtr);
             return JSI_ERROR;
         }
     }
@@ -2168,8 +2172,10 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         }
         sinterp->level--;
     } else {
-        if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
+        if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK) {
+            if (interp->subOpts.mutexUnlock) Jsi_MutexLock(interp, interp->Mutex);
             return JSI_ERROR;
+        }
         InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
         SIGINIT(s,INTERPSTREVENT);
         s->isExec = 1;
@@ -2382,14 +2388,17 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
     }
     Jsi_MutexUnlock(interp, interp->QMutex);
     Jsi_DSFree(&dStr);
-    if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
-        return JSI_ERROR;
 
-    /* Process subevents. */
-    InterpStrEvent *oldse, *se = interp->interpStrEvents;
-    Jsi_MutexUnlock(interp, interp->QMutex);
-    while (se) {
-        oldse = se;
+    /* Process subevents: each is unlinked first, as a nested call could process it again. */
+    while (1) {
+        if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
+            return JSI_ERROR;
+        InterpStrEvent *se = interp->interpStrEvents;
+        if (se)
+            interp->interpStrEvents = se->next;
+        Jsi_MutexUnlock(interp, interp->QMutex);
+        if (!se)
+            break;
         int isExec = se->isExec;
         if (se->acdata) {
             jsi_AliasCreateCmd(interp, Jsi_DSValue(&se->func), (AliasCmd*)se->acdata);
@@ -2427,15 +2436,9 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         if (!isExec) {
             Jsi_DSFree(&se->func);
             Jsi_DSFree(&se->data);
-        }
-        if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
-            return JSI_ERROR;
-        interp->interpStrEvents = se->next;
-        if (!isExec) Jsi_Free(se);
-        se = interp->interpStrEvents;
-        Jsi_MutexUnlock(interp, interp->QMutex);
-        if (isExec)
-            oldse->isExec = 0;
+            Jsi_Free(se);
+        } else
+            se->isExec = 0;
     }
 
     return rc;
@@ -2527,6 +2530,7 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
         if (Jsi_MutexLock(interp, sinterp->Mutex) != JSI_OK) {
             if (interp->subOpts.mutexUnlock) Jsi_MutexLock(interp, interp->Mutex);
+            Jsi_DSFree(&dStr);
             return JSI_ERROR;
         }
         Jsi_Value *srPtr = Jsi_ValueNew1(sinterp);
@@ -2546,16 +2550,13 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return rc;
     }
 
-    /* Post to thread event in sub-interps queue. */
-    if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
-        return JSI_ERROR;
-
     /* Is an async call. */
     InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
     // TODO: is s->data inited?
     Jsi_DSInit(&s->data);
     if (!cp) {
         if (!Jsi_ValueGetDString(interp, arg, &s->data, JSI_OUTPUT_JSON)) {
+            Jsi_DSFree(&s->data);
             Jsi_Free(s);
             return JSI_ERROR;
         }
@@ -2565,6 +2566,13 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     }
     Jsi_DSInit(&s->func);
     Jsi_DSAppend(&s->func, fname, NULL);
+    /* Post to thread event in sub-interps queue. */
+    if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK) {
+        Jsi_DSFree(&s->func);
+        Jsi_DSFree(&s->data);
+        Jsi_Free(s);
+        return JSI_ERROR;
+    }
     se = sinterp->interpStrEvents;
     if (!se)
         sinterp->interpStrEvents = s;
-- 
2.43.0


From 7d0627210ac365c2c88f99da14f39b516a324543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 24/70] fix: after a call the current function name stayed that
 of the callee

---
 src/jsiEval.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ab20bb..4dabaa5 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -764,8 +764,6 @@ empty_func:
     const char *onam = funcPtr->name;
 //        if (!onam) // Override blank name with last index.
 //            funcPtr->name = lpv;
-    if (funcPtr->name && funcPtr->name[0] && funcPtr->type == FC_NORMAL)
-        interp->curFunction = funcPtr->name;
     adds = funcPtr->callflags.bits.addargs;
     Jsi_CmdSpec *cs  = funcPtr->cmdSpec;
     if (adds && (cs->flags&JSI_CMDSPEC_NONTHIS))
-- 
2.43.0


From 5e8530a52ba03a2831bfb05fd5072a63071c4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 25/70] fix: evaluation flags of a script with a syntax error
 stayed in effect

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 4dabaa5..3f11cc1 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2691,12 +2691,12 @@ cont:
         else if (ps->last_exception || oldps->last_exception)
             Jsi_ValueDup2(interp, &oldps->last_exception, ps->last_exception); //TODO: dup even if null?
         interp->ps = oldps;
-        interp->evalFlags = oldef;
         if (rc == JSI_OK && ps && !ostr)
             fi->str = ps->lexer->d.str;
     }
     
 bail:
+    interp->evalFlags = oldef;
     interp->curDir = oldDir;
     interp->framePtr->Sp = oldSp;
     interp->isMain = oisi;
-- 
2.43.0


From 27059835506bec74679ab0d6202cabe417bb5d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 26/70] fix: call depth was not counted down when local
 variables could not be set up

---
 src/jsiProto.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 1acb3aa..3c85398 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -197,8 +197,10 @@ Jsi_RC jsi_FuncCallSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *callee,
             adds = 0;
         funcPtr->callflags.bits.addargs = 0;
         rc = jsi_InitLocalVar(interp, args, funcPtr);
-        if (rc != JSI_OK)
+        if (rc != JSI_OK) {
+            interp->callDepth--;
             goto done;
+        }
     
         if (!calltrc) {
             if (funcPtr->type == FC_NORMAL)
-- 
2.43.0


From fc35b515e44a3f172592cd0f188ab3abc32a4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 27/70] fix: a failing moduleRun left the main script marked as
 not main

---
 src/jsiCmds.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 059233e..b328e73 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4640,18 +4640,24 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_Func *func;
     const char *anam;
     bool oisMain = interp->isMain, isMain = jsi_isMain(interp);
+    if (isrun && v2 && !Jsi_ValueIsObjType(interp, v2, JSI_OT_ARRAY))
+        return Jsi_LogError("arg 2: expected array|undefined");
     if (interp->isMain) {
         dorun = 1;
         interp->isMain = 0;
     }
     
-    if (isrun && v2 && !Jsi_ValueIsObjType(interp, v2, JSI_OT_ARRAY))
-        return Jsi_LogError("arg 2: expected array|undefined");
     if (!v1) {
-        if (dorun) return JSI_ERROR;
+        if (dorun) {
+            rc = JSI_ERROR;
+            goto done;
+        }
         mod = interp->framePtr->filePtr->fileName;
         if (mod) mod = Jsi_Strrchr(mod, '/');
-        if (!mod || *mod || !*mod || !mod[1]) return Jsi_LogError("unknown module");
+        if (!mod || *mod || !*mod || !mod[1]) {
+            rc = Jsi_LogError("unknown module");
+            goto done;
+        }
         mod++;
         cp = Jsi_Strrchr(mod, '.');
         int len = (cp?(cp-mod):(int)Jsi_Strlen(mod));
@@ -4659,8 +4665,10 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     } else {
        mod = Jsi_ValueString(interp, v1, NULL);
        if (!isrun || Jsi_ValueIsObjType(interp, v1, JSI_OT_FUNCTION)) {
-            if (/*!interp->framePtr->Sp &&*/ SysProvideCmdInt(interp, args, _this, ret, funcPtr, (isrun?1:0)) != JSI_OK)
-                return JSI_ERROR;
+            if (/*!interp->framePtr->Sp &&*/ SysProvideCmdInt(interp, args, _this, ret, funcPtr, (isrun?1:0)) != JSI_OK) {
+                rc = JSI_ERROR;
+                goto done;
+            }
             cmd = v1;
         }
     }
-- 
2.43.0


From b0492612d06013006543212bb6c26314958cfac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 28/70] fix: interactive mode returned without cleanup when a
 result could not be printed

---
 src/jsiUtils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index c98c8d4..1333f25 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1289,9 +1289,8 @@ Jsi_RC Jsi_Interactive(Jsi_Interp* interp, int flags)
              if (interp->retValue->vt != JSI_VT_UNDEF || interp->subOpts.outUndef) {
                 Jsi_DString eStr = {};
                 const char *cp = Jsi_ValueGetDString(interp, interp->retValue, &eStr, wantHelp?0:quote);
-                if (!cp)
-                    return JSI_ERROR;
-                fputs(cp, stdout);
+                if (cp)
+                    fputs(cp, stdout);
                 Jsi_DSFree(&eStr);
                 fputs("\n", stdout);
              }
-- 
2.43.0


From 01c5115f1bf0e4d77da73f51c745c648b5c1fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 29/70] fix: leaving a with block by break, continue or throw
 left the frame's with depth counted up, so errors in later try blocks were
 printed instead of caught

---
 src/jsiEval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3f11cc1..54a1e21 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -311,6 +311,8 @@ static const char *jsiEvalPrint(Jsi_Value *v)
 static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
 {
     interp->framePtr->tryDepth--;
+    if ((*head)->type == jsi_TL_WITH)
+        interp->framePtr->withDepth--;
     jsi_TryList *t = (*head)->next;
     Jsi_Free(*head);
     *head = t;
@@ -2095,7 +2097,6 @@ undef_eval:
                 JSI_RESTORE_SCOPE();
                 
                 pop_try(trylist);
-                fp->withDepth--;
                 break;
             }
             case OP_DEBUG: {
-- 
2.43.0


From f99f3d495ef36fa7de8d8c12bcc0b98e7d121046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 30/70] fix: parseOpts ignored failing inserts, and froze an
 already frozen object more weakly

---
 src/jsiCmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index b328e73..31da7e1 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4993,7 +4993,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
                     }
             }
             if (rc == JSI_OK)
-                Jsi_ValueInsert(interp, vself, key, val, 0);
+                rc = Jsi_ValueInsert(interp, vself, key, val, 0);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -5023,7 +5023,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
             }
         }
     }
-    if (rc == JSI_OK && !nofreeze) {
+    if (rc == JSI_OK && !nofreeze && !vself->d.obj->freeze) {
         Jsi_Obj *obj = vself->d.obj;
         obj->freeze = 1;
         obj->freezeNoModify = 0;
-- 
2.43.0


From 853ed95a9c37a6d9427914b6a1780ae423162f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 31/70] fix: members of frozen objects could be changed through
 with, for-in and delete, and copies of them stayed frozen

---
 src/jsiEval.c  | 10 +++++++++-
 src/jsiValue.c |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 54a1e21..89c1e7a 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -176,6 +176,8 @@ static Jsi_RC inline jsiValueAssign(Jsi_Interp *interp, Jsi_Value *dst, Jsi_Valu
                 return Jsi_LogError("assign to readonly variable");
             return JSI_OK;
         }
+        if (v->f.bits.frozen)
+            return Jsi_LogError("object freeze: attempted modify");
         if (Jsi_ValueIsFunction(interp, src))
             Jsi_ValueMove(interp,v, src);
         else
@@ -1647,6 +1649,10 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                     rc = Jsi_LogError("function created global: \"%s\"", varname);
                     break;
                 }
+                if (top->d.lval->f.bits.frozen) {
+                    rc = Jsi_LogError("object freeze: attempted modify");
+                    break;
+                }
                 
                 Jsi_IterObj *io = toq->d.obj->d.iobj;
                 if (!io) {
@@ -1885,7 +1891,9 @@ undef_eval:
                     else {
                         vPtr = &vt->d.lval; v = *vPtr;
                         SIGASSERT(v, VALUE);
-                        if (v->f.bits.dontdel) {
+                        if (v->f.bits.frozen)
+                            rc = Jsi_LogError("object freeze: attempted delete");
+                        else if (v->f.bits.dontdel) {
                             if (strict) rc = Jsi_LogError("delete not allowed");
                         } else if (v->vt == JSI_VT_OBJECT && v->d.obj->freeze)
                             rc = Jsi_LogError("object freeze: attempted delete");
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 5efe30f..fbd42a3 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -246,6 +246,7 @@ static void jsi_ValueCopyMove(Jsi_Interp *interp, Jsi_Value *to, Jsi_Value *from
     Jsi_Value *ovt = NULL;
     assert(ocnt>0);
     int toVt = to->vt;
+    bool frozen = to->f.bits.frozen; // Belongs to the member of the frozen object, not to copies.
     if (toVt == JSI_VT_VARIABLE) {
         ovt = to->d.lval;
         Jsi_IncrRefCount(interp, ovt);
@@ -276,10 +277,12 @@ static void jsi_ValueCopyMove(Jsi_Interp *interp, Jsi_Value *to, Jsi_Value *from
             }
         }
         to->refCnt = ocnt;
+        to->f.bits.frozen = frozen;
         if (ovt)
             Jsi_DecrRefCount(interp, ovt);
     } else {
         to->refCnt = ocnt;
+        to->f.bits.frozen = frozen;
         if (ovt)
             Jsi_DecrRefCount(interp, ovt);
         ocnt = from->refCnt;
-- 
2.43.0


From 9984091adf5ea1de92af93a8fef76a2dc2bf5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 32/70] fix: members added between Object.freeze(o,false,false)
 and a modify-protected freeze could be changed by increment

---
 src/jsiObj.c   | 4 +---
 src/jsiProto.c | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 63f8e52..b49cf19 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -515,12 +515,10 @@ static Jsi_RC ObjInsertFromValue(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *ke
 }
 
 Jsi_RC Jsi_ObjFreeze(Jsi_Interp *interp, Jsi_Obj *obj, bool freeze, bool modifyOk, bool readCheck) {
-    bool obnum = !obj->freezeNoModify;
     obj->freeze = freeze;
     obj->freezeNoModify = !modifyOk;
     obj->freezeReadCheck = readCheck;    
-    if (obnum != modifyOk)
-        jsi_ObjSetFlag(interp, obj, JSI_OM_ISFROZEN, !modifyOk);
+    jsi_ObjSetFlag(interp, obj, JSI_OM_ISFROZEN, freeze && !modifyOk);
     return JSI_OK;
 }
 
diff --git a/src/jsiProto.c b/src/jsiProto.c
index 3c85398..e645851 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -383,7 +383,7 @@ static Jsi_RC ObjectFreezeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         return Jsi_LogError("arg 3: expected bool");
     if (rval && !Jsi_ValueIsBoolean(interp, rval))
         return Jsi_LogError("arg 4: expected bool");
-    bool bnum = 1, rnum = 1, fnum = 1, obnum = !obj->freezeNoModify;
+    bool bnum = 1, rnum = 1, fnum = 1;
     if (bval)
         Jsi_GetBoolFromValue(interp, bval, &bnum);
     if (rval)
@@ -393,8 +393,7 @@ static Jsi_RC ObjectFreezeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     obj->freeze = fnum;
     obj->freezeNoModify = !bnum;
     obj->freezeReadCheck = rnum;
-    if (obnum != bnum)
-        jsi_ObjSetFlag(interp, obj, JSI_OM_ISFROZEN, !bnum);
+    jsi_ObjSetFlag(interp, obj, JSI_OM_ISFROZEN, fnum && !bnum);
     return JSI_OK;
 
 }
-- 
2.43.0


From be1096451c29f96b77eeed5624a041a0ffd2a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 33/70] fix: array callbacks, filter and flat shared element
 values with the array they were called on

---
 src/jsiArray.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index c650f8e..91426a9 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -254,8 +254,11 @@ static Jsi_RC jsi_ArrayFlatSub(Jsi_Interp *interp, Jsi_Obj* nobj, Jsi_Value *arr
         Jsi_Value *t = Jsi_ValueArrayIndex(interp, arr, i);
         if (t && depth>0 && Jsi_ValueIsArray(interp, t))
             rc = jsi_ArrayFlatSub(interp, nobj, t , depth-1);
-        else if (t && t->vt != JSI_VT_UNDEF)
-            Jsi_ObjArrayAdd(interp, nobj, t);
+        else if (t && t->vt != JSI_VT_UNDEF) {
+            Jsi_Value *nv = Jsi_ValueDup(interp, t);
+            Jsi_ObjArrayAdd(interp, nobj, nv);
+            Jsi_DecrRefCount(interp, nv);
+        }
         if ((uint)(++n + clen)>interp->maxArrayList)
             rc = Jsi_LogError("array size exceeded");
     }
@@ -379,13 +382,14 @@ static Jsi_RC jsi_ArrayMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         maa = 3;
     for (i = 0; i < curlen && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_IncrRefCount(interp, vobjs[2]);
         nobj->arr[i] = Jsi_ValueNew1(interp);
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_DecrRefCount(interp, vobjs[2]);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, nobj->arr+i, sthis);
         Jsi_DecrRefCount(interp, vpargs);
@@ -437,12 +441,13 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < curlen; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[2]);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
         Jsi_IncrRefCount(interp, vpargs);
+        Jsi_DecrRefCount(interp, vobjs[0]);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vobjs[2]);
@@ -452,8 +457,7 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         }
         if (fval) {
             if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = obj->arr[i];
-                Jsi_IncrRefCount(interp, nobj->arr[n]);
+                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
             } else
                 nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
             n++;
@@ -526,13 +530,14 @@ static Jsi_RC jsi_ArrayForeachCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_IncrRefCount(interp, vobjs[2]);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, ret, sthis);
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_DecrRefCount(interp, vobjs[2]);
         Jsi_DecrRefCount(interp, vpargs);
     }
@@ -571,7 +576,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
@@ -579,6 +584,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_DecrRefCount(interp, vobjs[2]);
         if (rc != JSI_OK)
             break;
@@ -630,13 +636,13 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_IncrRefCount(interp, _this);
     for (n = 0, i = (rev?end:start); (rev?i>=start:i<=end) && rc == JSI_OK; n++, i += (rev?-1:1)) {
         if (!obj->arr[i]) continue;
-        if (n==0 && !ini) {
+        if (!ini) {
             ini = obj->arr[i];
             continue;
         }
             
-        vobjs[0] = ini;
-        vobjs[1] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, ini);
+        vobjs[1] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[2] = (maa>2?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[3] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[3]);
@@ -644,6 +650,8 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, _this);
         Jsi_DecrRefCount(interp, vpargs);
+        Jsi_DecrRefCount(interp, vobjs[0]);
+        Jsi_DecrRefCount(interp, vobjs[1]);
         Jsi_DecrRefCount(interp, vobjs[3]);
         if (rc != JSI_OK)
             break;
@@ -976,12 +984,14 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
         if (!si->compare)
             rc = Jsi_ValueCmp(interp, v1, v2, sortFlags);
         else {
-            Jsi_Value *vv[2] = {v1, v2};
+            Jsi_Value *vv[2] = {Jsi_ValueDup(interp, v1), Jsi_ValueDup(interp, v2)};
             Jsi_Value *retP = Jsi_ValueNew1(interp);
             Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 0));
             Jsi_IncrRefCount(interp, vpargs);
             rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
+            Jsi_DecrRefCount(interp, vv[0]);
+            Jsi_DecrRefCount(interp, vv[1]);
             if (rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
-- 
2.43.0


From 9923e8ea359ab2bcc835c73792b8c484e12e9191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 34/70] fix: Object.assign/merge/create/values, apply and bind
 shared values with the object or array they copied from

---
 src/jsiObj.c   |  7 +++++--
 src/jsiProto.c | 42 +++++++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index b49cf19..0519ea0 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -128,9 +128,12 @@ static Jsi_RC ObjListifyValuesCallback(Jsi_Tree *tree, Jsi_TreeEntry *hPtr, void
     Jsi_Interp *interp = tree->opts.interp;
     Jsi_Obj *obj = (Jsi_Obj*)data;
     Jsi_Value *val = (Jsi_Value*)Jsi_TreeValueGet(hPtr);
-    if (!val || Jsi_ObjArrayAdd(interp, obj, val) != JSI_OK) 
+    if (!val)
         return JSI_ERROR;
-    return JSI_OK;
+    val = Jsi_ValueDup(interp, val);
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
+    Jsi_DecrRefCount(interp, val);
+    return rc;
 }
 
 Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi_Value *_this)
diff --git a/src/jsiProto.c b/src/jsiProto.c
index e645851..5fc0665 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -291,8 +291,13 @@ static Jsi_RC jsi_FuncBindCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             _this = nthis;
         if (fargc>1) {
             nargs = Jsi_ValueNewArray(interp, NULL, 0);
-            for (i=1; i<fargc; i++)
-                Jsi_ValueArrayPush(interp, nargs, Jsi_ValueArrayIndex(interp, fargs, i));
+            for (i=1; i<fargc; i++) {
+                Jsi_Value *fv = Jsi_ValueArrayIndex(interp, fargs, i);
+                if (!fv) continue;
+                fv = Jsi_ValueDup(interp, fv);
+                Jsi_ValueArrayPush(interp, nargs, fv);
+                Jsi_DecrRefCount(interp, fv);
+            }
             for (i=0; i<argc; i++)
                 Jsi_ValueArrayPush(interp, nargs, Jsi_ValueArrayIndex(interp, args, i));
             Jsi_IncrRefCount(interp, nargs);
@@ -448,7 +453,6 @@ Jsi_RC jsi_ObjectToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 Jsi_RC Jsi_FunctionApply(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret)
 {
-    int isalloc = 0;
     if (!Jsi_ValueIsFunction(interp, _this)) 
         return Jsi_LogError("can not execute expression, expression is not a function");
 
@@ -473,16 +477,16 @@ Jsi_RC Jsi_FunctionApply(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_LogError("second argument to Function.prototype.apply must be an array");
             goto done;
         }
-    } else {
-        isalloc = 1;
+        Jsi_ObjListifyArray(interp, fargs->d.obj);
+        fargs = Jsi_ValueMakeObject(interp, NULL,
+            Jsi_ObjNewArray(interp, fargs->d.obj->arr, fargs->d.obj->arrCnt, 1));
+    } else
         fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewType(interp, JSI_OT_ARRAY));
-        Jsi_IncrRefCount(interp, fargs);
-    }
+    Jsi_IncrRefCount(interp, fargs);
     rc = jsi_FuncCallSub(interp, fargs, _this, ret, funcPtr, fthis, 0);
+    Jsi_DecrRefCount(interp, fargs);
     
 done:
-    if (isalloc)
-        Jsi_DecrRefCount(interp, fargs);
     Jsi_DecrRefCount(interp, fthis);
     return rc;
 }
@@ -510,15 +514,21 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     for (tPtr = Jsi_TreeSearchFirst(_this->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-        if (v && v->f.bits.dontenum == 0)
+        if (v && v->f.bits.dontenum == 0) {
+            v = Jsi_ValueDup(interp, v);
             rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            Jsi_DecrRefCount(interp, v);
+        }
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-        if (v && v->f.bits.dontenum == 0)
+        if (v && v->f.bits.dontenum == 0) {
+            v = Jsi_ValueDup(interp, v);
             rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            Jsi_DecrRefCount(interp, v);
+        }
     }
     Jsi_TreeSearchDone(&search);
 
@@ -548,8 +558,11 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         for (tPtr = Jsi_TreeSearchFirst(vs->d.obj->tree, &search, 0, NULL);
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-            if (v2 && v2->f.bits.dontenum == 0)
+            if (v2 && v2->f.bits.dontenum == 0) {
+                v2 = Jsi_ValueDup(interp, v2);
                 rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, 0);
+                Jsi_DecrRefCount(interp, v2);
+            }
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -655,8 +668,11 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         for (tPtr = Jsi_TreeSearchFirst(pobj->tree, &search, 0, NULL);
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-            if (v && v->f.bits.dontenum == 0)
+            if (v && v->f.bits.dontenum == 0) {
+                v = Jsi_ValueDup(interp, v);
                 rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+                Jsi_DecrRefCount(interp, v);
+            }
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From 8eb11828d528453ff708e9130227e04efeda6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 35/70] fix: String.map converted the elements of its argument,
 and replace passed the shared null value to callbacks

---
 src/jsiString.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..920fe64 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -606,7 +606,12 @@ static Jsi_RC StringMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("expected boolean");
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
-    Jsi_Obj *obj = repVal->d.obj;
+    // Work on a copy, as elements get converted to strings.
+    Jsi_ObjListifyArray(interp, repVal->d.obj);
+    Jsi_Obj *obj = Jsi_ObjNewArray(interp, repVal->d.obj->arr, repVal->d.obj->arrCnt, 1);
+    if (!obj)
+        return JSI_ERROR;
+    Jsi_ObjIncrRefCount(interp, obj);
     p = source_str;
     for (j=0; j<(uint)bLen; j++, p++) {
         for (i=0; i<obj->arrCnt; i+=2) {
@@ -615,6 +620,7 @@ static Jsi_RC StringMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             const char *cp = Jsi_ValueToString(interp, obj->arr[i], &slen);
             if (!cp || !slen) {
                 Jsi_DSFree(&dStr);
+                Jsi_ObjDecrRefCount(interp, obj);
                 return Jsi_LogError("map src can not be empty");
             }
             int res = (nocase ? Jsi_Strncasecmp(cp, p, slen) : Jsi_Strncmp(cp, p, slen));
@@ -622,6 +628,7 @@ static Jsi_RC StringMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
                 replace_str = Jsi_ValueToString(interp, obj->arr[i+1], &replace_len);
                 if ((Jsi_DSLength(&dStr)+replace_len+1)>=JSI_MAX_ALLOC_BUF) {
                     Jsi_DSFree(&dStr);
+                    Jsi_ObjDecrRefCount(interp, obj);
                     return Jsi_LogError("too long");
                 }
                 Jsi_DSAppendLen(&dStr, replace_str, replace_len);
@@ -634,6 +641,7 @@ static Jsi_RC StringMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             Jsi_DSAppendLen(&dStr, p, 1);
     }
 
+    Jsi_ObjDecrRefCount(interp, obj);
     Jsi_ValueFromDS(interp, &dStr, ret);
     return JSI_OK;
 }
@@ -825,7 +833,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 items[0] = inStr;
                 for (i=1; i<=(int)re->reg.re_nsub && i<(MAX_SUBREGEX-3); i++) {
                     if (pmatch[i].rm_so<0)
-                        items[i] = interp->NullValue;
+                        items[i] = Jsi_ValueNewNull(interp);
                     else {
                         ostr = jsi_SubstrDup(p, -1, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so, &olen);
                         items[i] = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-- 
2.43.0


From 79e52c979314c7726826a6e7455ea8c5022f7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 36/70] fix: vfs callbacks got the mount and null values
 themselves, and zvfs created archives with non-string names

---
 src/jsiVfs.c  | 18 +++++++++++-------
 src/jsiZvfs.c |  8 ++++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 6bbc090..9a9f742 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -150,7 +150,7 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
         vargs[0] = Jsi_ValueNewStringDup(interp, "file");
-        vargs[1] = cmdPtr->mount;
+        vargs[1] = Jsi_ValueDup(interp, cmdPtr->mount);
         vargs[2] = Jsi_ValueNewStringKey(interp, pFile->file);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vargs, 3, 0));
         
@@ -159,6 +159,7 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_RC jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, NULL);
         Jsi_DecrRefCount(interp, vargs[0]);
+        Jsi_DecrRefCount(interp, vargs[1]);
         Jsi_DecrRefCount(interp, vargs[2]);
         Jsi_DecrRefCount(interp, vpargs);
         if (jrc == JSI_OK && !Jsi_ValueIsUndef(interp, retStr) && Jsi_ValueString(interp, retStr, NULL)) {
@@ -589,8 +590,8 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
         vargs[0] = Jsi_ValueNewStringDup(interp, "init");
-        vargs[1] = cmdPtr->mount;
-        vargs[2] = interp->NullValue;
+        vargs[1] = Jsi_ValueDup(interp, cmdPtr->mount);
+        vargs[2] = Jsi_ValueNewNull(interp);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vargs, 3, 0));
         
         Jsi_IncrRefCount(interp, vargs[0]);
@@ -598,6 +599,7 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         Jsi_RC jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, _this);
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vargs[0]);
+        Jsi_DecrRefCount(interp, vargs[1]);
         if (jrc != JSI_OK) {
             Jsi_DecrRefCount(interp, retStr);
             goto bail;
@@ -613,8 +615,8 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
         vargs[0] = Jsi_ValueNewStringDup(interp, "list");
-        vargs[1] = cmdPtr->mount;
-        vargs[2] = interp->NullValue;
+        vargs[1] = Jsi_ValueDup(interp, cmdPtr->mount);
+        vargs[2] = Jsi_ValueNewNull(interp);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vargs, 3, 0));
         
         Jsi_IncrRefCount(interp, vargs[0]);
@@ -622,6 +624,7 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         Jsi_RC jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, _this);
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vargs[0]);
+        Jsi_DecrRefCount(interp, vargs[1]);
         if (jrc != JSI_OK) {
             Jsi_DecrRefCount(interp, retStr);
             goto bail;
@@ -713,8 +716,8 @@ static Jsi_RC VfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
         vargs[0] = Jsi_ValueNewStringDup(interp, "done");
-        vargs[1] = cmdPtr->mount;
-        vargs[2] = interp->NullValue;
+        vargs[1] = Jsi_ValueDup(interp, cmdPtr->mount);
+        vargs[2] = Jsi_ValueNewNull(interp);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vargs, 3, 0));
         
         Jsi_IncrRefCount(interp, vargs[0]);
@@ -722,6 +725,7 @@ static Jsi_RC VfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, _this);
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vargs[0]);
+        Jsi_DecrRefCount(interp, vargs[1]);
         Jsi_DecrRefCount(interp, retStr);
     }
     Jsi_HashEntryDelete(cmdPtr->hPtr);
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cd81f21..4c30ea7 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1695,7 +1695,7 @@ static Jsi_RC writeFile(
     struct tm *tm;
     time_t now;
     struct stat stat;
-    const char *zDest = Jsi_ValueToString(interp, Dest, NULL);
+    const char *zDest = Jsi_ValueString(interp, Dest, NULL);
     int isdir = (in == NULL);
     nameLen = Jsi_Strlen(zDest);
 
@@ -2039,7 +2039,11 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_Channel in;
             char *fname = Jsi_ValueString(interp, Src, 0);
             
-            ext = (fname?GetExtension(fname):NULL);
+            if (!fname) {
+                rc = Jsi_LogError("expected string file name");
+                break;
+            }
+            ext = GetExtension(fname);
             if (ext && *ext == '.' && (ext[1] == 0 || (ext[1] == '.' && ext[2] == 0)))
                 continue;
             if (prefix && !Jsi_ValueIsNull(interp, prefix)) {
-- 
2.43.0


From 65db631f275679e57f57eaeb9a25715bd5928b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 37/70] fix: sqlite bind types leaked to later parameters,
 converted the bound variable, and overflowed a buffer

---
 src/jsiSqlite.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 0b6735f..5522f5b 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -808,6 +808,8 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
    /* Bind values to parameters that begin with @, $, :, or ? */
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
+        btype = bindArr = 0;
+        Jsi_Value *cpv = NULL;
         int isInt = 0, isBlob = 0;
         const char *zVar = sqlite3_bind_parameter_name(pStmt, i);
         if (zVar == NULL) {
@@ -849,7 +851,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                         Jsi_LogWarnExt("bind type \"%s\" is not one of: %s", Jsi_DSValue(&tStr), Jsi_DSValue(&eStr));
                         Jsi_DSFree(&eStr);
                     }
-                    Jsi_Strcpy(tname, Jsi_DSValue(&tStr));
+                    Jsi_Strncpy(tname, Jsi_DSValue(&tStr), sizeof(tname));
                     Jsi_DSFree(&tStr);
                     if (!rc)
                         return JSI_ERROR;
@@ -885,6 +887,11 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
         } else {
             int match = 1, cast = (db->optPtr->typeCheck==dbTypeCheck_Cast);
             if (btype && !Jsi_ValueIsUndef(interp, pv)) {
+                if (cast) { // Convert a copy, not the variable itself.
+                    cpv = Jsi_ValueNew1(interp);
+                    Jsi_ValueCopy(interp, cpv, pv);
+                    pv = cpv;
+                }
                 switch (btype) {
                     case JSI_OPTION_STRBUF:
                         isBlob = 1;
@@ -968,12 +975,15 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                 if (!db->bindWarn) {
                     Jsi_LogErrorExt("bind param must be string/number/bool/null: %s", zVar);
                     rc = JSI_ERROR;
+                    if (cpv)
+                        Jsi_DecrRefCount(interp, cpv);
                     break;
                 } else
                     Jsi_LogWarnExt("bind param must be string/number/bool/null: %s", zVar);
                 sqlite3_bind_null(pStmt, i);
             }
-
+            if (cpv)
+                Jsi_DecrRefCount(interp, cpv);
         }
     }
     return rc;
-- 
2.43.0


From f384e038a480ccc5d2bdf6202ad686806fcdd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 38/70] fix: moduleRun converted elements of its argument,
 parseOpts and Info.locals shared values with their source

---
 src/jsiCmds.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 31da7e1..71e6209 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -3620,7 +3620,9 @@ Jsi_RC jsi_InfoLocalsCmd(Jsi_Interp *interp, bool funcs, bool vars, Jsi_Value **
         }
 
         const char* key = (char*)Jsi_TreeKeyGet(tPtr);
+        v = Jsi_ValueDup(interp, v);
         Jsi_ObjInsert(interp, nobj, key, v, 0);
+        Jsi_DecrRefCount(interp, v);
     }
     Jsi_TreeSearchDone(&search);
 
@@ -4633,7 +4635,7 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_RC rc = JSI_OK;
     Jsi_DString dStr = {}, nStr = {};
     Jsi_Value *cmd = NULL;
-    Jsi_Value *vpargs, *vargs[2] = {};
+    Jsi_Value *vpargs, *vargs[2] = {}, *optArr = NULL;
     uint i, n = 0, siz, anum = 0, acnt=0;
     Jsi_Value **arr, *oargs;
     Jsi_Obj *obj;
@@ -4695,8 +4697,15 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         vargs[n++] = Jsi_ValueNewObj(interp, obj);
         vargs[n++] = Jsi_ValueNewObj(interp, obj=Jsi_ObjNew(interp));
     } else {
-        arr = v2->d.obj->arr;
-        siz = v2->d.obj->arrCnt;
+        // Work on a copy, as option parsing converts elements to strings.
+        Jsi_ObjListifyArray(interp, v2->d.obj);
+        optArr = Jsi_ValueMakeObject(interp, NULL,
+            Jsi_ObjNewArray(interp, v2->d.obj->arr, v2->d.obj->arrCnt, 1));
+        Jsi_IncrRefCount(interp, optArr);
+        arr = optArr->d.obj->arr;
+        siz = optArr->d.obj->arrCnt;
+        for (i=0; i<siz; i++)
+            if (!arr[i]) arr[i] = Jsi_ValueNew1(interp);
         for (i=0; i<siz; i+=2) {
             anam = Jsi_ValueToString(interp, arr[i], NULL);
             if (i==0 && siz==1 && !Jsi_Strcmp(anam, "-h")) { anum=1; break; }
@@ -4710,7 +4719,7 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
             rc = Jsi_LogError("missing argument");
             goto done;
         }
-        obj = Jsi_ObjNewArray(interp, arr+anum+acnt, siz-anum-acnt, 0);
+        obj = Jsi_ObjNewArray(interp, arr+anum+acnt, siz-anum-acnt, 1);
         vargs[n++] = Jsi_ValueNewObj(interp, obj);
         vargs[n++] = Jsi_ValueNewObj(interp, obj=Jsi_ObjNew(interp));
         bool isLong = 0;
@@ -4734,7 +4743,10 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
                 if (Jsi_GetBool(interp, astr, &bv) == JSI_OK) aval = Jsi_ValueNewBoolean(interp, bv);
                 else if (Jsi_GetDouble(interp, astr, &nv) == JSI_OK) aval = Jsi_ValueNewNumber(interp, nv);
                 else if (!Jsi_Strcmp(astr, "null"))  aval = Jsi_ValueNewNull(interp);
-                else aval = arr[i+1];
+                else {
+                    aval = Jsi_ValueNew(interp);
+                    Jsi_ValueCopy(interp, aval, arr[i+1]);
+                }
             }
             Jsi_ObjInsert(interp, obj, anam, aval, 0);
         }
@@ -4772,6 +4784,8 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
 done:
     interp->isMain = oisMain;
+    if (optArr)
+        Jsi_DecrRefCount(interp, optArr);
     Jsi_DSFree(&dStr);
     Jsi_DSFree(&nStr);
     return rc;
@@ -4856,8 +4870,11 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
         if (v==NULL) continue;
         const char *key = (char*)Jsi_TreeKeyGet(tPtr);
-        if (!Jsi_ValueObjLookup(interp, vself, key, 1))
+        if (!Jsi_ValueObjLookup(interp, vself, key, 1)) {
+            v = Jsi_ValueDup(interp, v);
             Jsi_ValueInsert(interp, vself, key, v, 0);
+            Jsi_DecrRefCount(interp, v);
+        }
     }
     if (vopts)
         Jsi_TreeSearchDone(&search);
@@ -4953,6 +4970,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
                 Jsi_DSFree(&vStr);
                 break;
             }
+            bool toBool = 0;
             Jsi_vtype oTyp, vTyp = jsi_getValType(val);
             if (!parse && jsi_isDebugKey(key)) {
                 oTyp = JSI_VT_BOOL; // Accept these as builtin options.
@@ -4984,7 +5002,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
                 case JSI_VT_BOOL:
                     if (vTyp == JSI_VT_NUMBER && (val->d.num==1 || val->d.num==0)) {
                         oTyp = vTyp;
-                        val = Jsi_ValueNewBoolean(interp, (val->d.num==1));
+                        toBool = 1;
                     }
                 default:
                     if (oTyp != vTyp) {
@@ -4992,8 +5010,13 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
                             key, jsi_ValueTypeName(interp, val), (oVal?jsi_ValueTypeName(interp, oVal):"boolean"));
                     }
             }
-            if (rc == JSI_OK)
-                rc = Jsi_ValueInsert(interp, vself, key, val, 0);
+            if (rc == JSI_OK) {
+                Jsi_Value *nval = Jsi_ValueDup(interp, val);
+                if (toBool)
+                    Jsi_ValueMakeBool(interp, &nval, (val->d.num==1));
+                rc = Jsi_ValueInsert(interp, vself, key, nval, 0);
+                Jsi_DecrRefCount(interp, nval);
+            }
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From f579aaeaf074073abddde46dbe446e4352f3d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 39/70] fix: Info.package handed out the function and null
 values themselves; sqlite casts convert the copy

---
 src/jsiCmds.c   | 15 ++++++++-------
 src/jsiSqlite.c | 10 +++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 71e6209..690b725 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -914,16 +914,17 @@ Jsi_RC jsi_PkgDumpInfo(Jsi_Interp *interp, const char *name, Jsi_Value **ret, Js
         Jsi_ObjInsert(interp, nobj, "loadFile", Jsi_ValueNewStringDup(interp, cp), 0);
         Jsi_Value *fval = Jsi_NameLookup(interp, name);
         if (!fval || !Jsi_ValueIsFunction(interp, fval))
-            fval = Jsi_ValueNewNull(interp);
+            fval = interp->NullValue;
+        fval = Jsi_ValueDup(interp, fval);
         Jsi_ObjInsert(interp, nobj, "func", fval, 0);
-        fval = interp->NullValue;
-        if (ptr->popts.spec && ptr->popts.data) {
-            fval = Jsi_ValueNew1(interp);
+        Jsi_DecrRefCount(interp, fval);
+        fval = Jsi_ValueNew1(interp);
+        if (ptr->popts.spec && ptr->popts.data)
             Jsi_OptionsConf(interp, ptr->popts.spec, ptr->popts.data, NULL, &fval, 0);
-        }
+        else
+            Jsi_ValueMakeNull(interp, &fval);
         Jsi_ObjInsert(interp, nobj, "status", fval, 0);
-        if (fval != interp->NullValue)
-            Jsi_DecrRefCount(interp, fval);
+        Jsi_DecrRefCount(interp, fval);
 
         fval = Jsi_ValueNew1(interp);
         Jsi_OptionsConf(interp, jsiModuleOptions, &ptr->popts.conf, NULL, &fval, 0);
diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 5522f5b..187927c 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -897,14 +897,14 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                         isBlob = 1;
                     case JSI_OPTION_STRING:
                         if (cast)
-                            Jsi_ValueToString(interp, pv, &n);
+                            Jsi_ValueToString(interp, cpv, &n);
                         else
                             match = Jsi_ValueIsString(interp, pv);
                         break;
                     case JSI_OPTION_NUMBER:
                     case JSI_OPTION_DOUBLE:
                         if (cast)
-                            Jsi_ValueToNumber(interp, pv);
+                            Jsi_ValueToNumber(interp, cpv);
                         else
                             match = Jsi_ValueIsNumber(interp, pv);
                         break;
@@ -913,19 +913,19 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                     case JSI_OPTION_INT64:
                         isInt = 1;
                         if (cast)
-                            Jsi_ValueToNumber(interp, pv);
+                            Jsi_ValueToNumber(interp, cpv);
                         else
                             match = Jsi_ValueIsNumber(interp, pv);
                         break;
                     case JSI_OPTION_BOOL:
                         if (cast)
-                            Jsi_ValueToBool(interp, pv);
+                            Jsi_ValueToBool(interp, cpv);
                         else
                             match = Jsi_ValueIsNumber(interp, pv);
                         break;
                     case JSI_OPTION_TIME_D:
                         if (cast)
-                            Jsi_ValueToNumber(interp, pv); //TODO: do something more for dates?
+                            Jsi_ValueToNumber(interp, cpv); //TODO: do something more for dates?
                         else
                             match = Jsi_ValueIsNumber(interp, pv);
                         break;
-- 
2.43.0


From 7228c091da259a022a910fda4c9a0f7b0705d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 40/70] fix: Info.level handed out the scope and this of a
 frame, Zvfs the stored mount names

---
 src/jsiCmds.c | 13 +++++++++++--
 src/jsiVfs.c  |  4 +++-
 src/jsiZvfs.c | 12 +++++++++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 690b725..f8b5fa2 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2610,8 +2610,17 @@ static Jsi_RC InfoLevelCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         }
     }
     Jsi_ValueInsert(interp, *ret, "locals", val, 0);
-    Jsi_ValueInsert(interp, *ret, "scope", f->incsc, 0);
-    Jsi_ValueInsert(interp, *ret, "inthis", f->inthis, 0);
+    Jsi_Value *nval;
+    if (f->incsc) {
+        nval = Jsi_ValueDup(interp, f->incsc);
+        Jsi_ValueInsert(interp, *ret, "scope", nval, 0);
+        Jsi_DecrRefCount(interp, nval);
+    }
+    if (f->inthis) {
+        nval = Jsi_ValueDup(interp, f->inthis);
+        Jsi_ValueInsert(interp, *ret, "inthis", nval, 0);
+        Jsi_DecrRefCount(interp, nval);
+    }
     return rc;
 }
 
diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 9a9f742..4da7794 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -295,7 +295,9 @@ static Jsi_Value *Jav_FSListVolumesProc (Jsi_Interp *interp) {
     hPtr=Jsi_HashSearchFirst(interp->vfsMountHash, &zSearch);
     while (hPtr) {
         if ((pArchive = (VfsData*)Jsi_HashValueGet(hPtr))) {
-            Jsi_ObjArrayAdd(interp, obj, pArchive->mount);
+            Jsi_Value *val = Jsi_ValueDup(interp, pArchive->mount);
+            Jsi_ObjArrayAdd(interp, obj, val);
+            Jsi_DecrRefCount(interp, val);
         }
         hPtr=Jsi_HashSearchNext(&zSearch);
     }
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 4c30ea7..a04612a 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -423,7 +423,9 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
         while (pEntry) {
             if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
-                Jsi_ObjArrayAdd(interp, obj, pArchive->MountPoint);
+                Jsi_Value *val = Jsi_ValueDup(interp, pArchive->MountPoint);
+                Jsi_ObjArrayAdd(interp, obj, val);
+                Jsi_DecrRefCount(interp, val);
             }
             pEntry=Jsi_HashSearchNext(&zSearch);
         }
@@ -801,7 +803,9 @@ static Jsi_RC ZvfsStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         Jsi_Obj *sobj = Jsi_ObjNew(interp);
         Jsi_ValueMakeObject(interp, ret, sobj);
         
-        Jsi_ObjInsert(interp, sobj, "archive", pFile->pArchive->Name, 0);
+        Jsi_Value *aname = Jsi_ValueDup(interp, pFile->pArchive->Name);
+        Jsi_ObjInsert(interp, sobj, "archive", aname, 0);
+        Jsi_DecrRefCount(interp, aname);
         Jsi_ObjInsert(interp, sobj, "offset", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->iOffset), 0);
         Jsi_ObjInsert(interp, sobj, "size", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->nByte), 0);
         Jsi_ObjInsert(interp, sobj, "compressedSize", Jsi_ValueNewNumber(interp, (Jsi_Number)pFile->nByteCompr), 0);
@@ -1458,7 +1462,9 @@ static Jsi_Value *Jaz_FSListVolumesProc (Jsi_Interp *interp) {
     pEntry=Jsi_HashSearchFirst(jsiIntData.zvfslocal.archiveHash,&zSearch);
     while (pEntry) {
         if ((pArchive = (ZvfsArchive*)Jsi_HashValueGet(pEntry))) {
-            Jsi_ObjArrayAdd(interp, obj, pArchive->MountPoint);
+            Jsi_Value *val = Jsi_ValueDup(interp, pArchive->MountPoint);
+            Jsi_ObjArrayAdd(interp, obj, val);
+            Jsi_DecrRefCount(interp, val);
         }
         pEntry=Jsi_HashSearchNext(&zSearch);
     }
-- 
2.43.0


From dba205707b611c69cf7b8b8c27e304f345556c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 41/70] fix: JSON.parse of deeply nested data overflowed the C
 stack

---
 src/jsiInt.h  |  1 +
 src/jsiJSON.c | 37 ++++++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..5947e42 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -878,6 +878,7 @@ enum {
     STACK_INIT_SIZE=1024, STACK_INCR_SIZE=1024, STACK_MIN_PAD=100,
     JSI_MAX_EVAL_DEPTH=200, /* default max nesting depth for eval */
     JSI_MAX_INCLUDE_DEPTH=50,  JSI_MAX_SUBINTERP_DEPTH=10,
+    JSI_MAX_JSON_DEPTH=2000, /* max nesting of JSON data */
     JSI_IS_UTF=1,
     JSI_UTF_CHECKED=2
     /*,JSI_ON_STACK=0x80*/
diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..154fd3d 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -56,11 +56,11 @@ static Jsi_Value *jsonNewStringObj(Jsi_Interp *interp, const char* str, int len)
     return v;
 }
 
-static Jsi_Value* jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos);
-static Jsi_Value* jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos);
+static Jsi_Value* jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, uint depth);
+static Jsi_Value* jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, uint depth);
 
 static Jsi_Value*
-jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uint *endPos, int incr)
+jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uint *endPos, int incr, uint depth)
 {
     uint len = 0;
     const char *t = NULL;
@@ -93,11 +93,19 @@ jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uin
             v = jsonNewStringObj(interp, t?t:"", len);
             break;
         case JSI_JTYPE_ARRAY:
-            v = jsonGenArray(interp, p, js, i, &i);
+            if (depth >= JSI_MAX_JSON_DEPTH) {
+                p->errStr = "nested too deep";
+                break;
+            }
+            v = jsonGenArray(interp, p, js, i, &i, depth+1);
             i--;
             break;
         case JSI_JTYPE_OBJECT:
-            v = jsonGenObject(interp, p, js, i, &i);
+            if (depth >= JSI_MAX_JSON_DEPTH) {
+                p->errStr = "nested too deep";
+                break;
+            }
+            v = jsonGenObject(interp, p, js, i, &i, depth+1);
             i--;
             break;
         default:
@@ -113,7 +121,7 @@ jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uin
 }
 
 static Jsi_Value*
-jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos)
+jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, uint depth)
 {
     Jsi_Obj *obj = Jsi_ObjNewType(interp, JSI_OT_OBJECT);
     Jsi_Value *nv, *v = Jsi_ValueMakeObject(interp, NULL, obj);
@@ -129,7 +137,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
         if (!t || n>=tok->size)
             nv = Jsi_ValueMakeUndef(interp, NULL);
         else
-            nv = jsonGen1Value(interp, p, js, i, &i, 0);
+            nv = jsonGen1Value(interp, p, js, i, &i, 0, depth);
         Jsi_DSInit(&dStr);
         if (t)
             Jsi_DSAppendLen(&dStr, t, len);
@@ -142,7 +150,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
 }
 
 static Jsi_Value*
-jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos)
+jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, uint depth)
 {
     if (js==NULL || !js[0])
         return NULL;
@@ -159,7 +167,7 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
                 break;
             }
         }
-        nobj->arr[n] = jsonGen1Value(interp, p, js, i, &i, 1);
+        nobj->arr[n] = jsonGen1Value(interp, p, js, i, &i, 1, depth);
     }
     Jsi_ObjSetLength(interp, nobj, n);
     if (endPos)
@@ -222,8 +230,15 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
             Jsi_ValueMakeUndef(interp, ret);
         goto done;
     }
-    v = jsonGen1Value(interp, p, js, i, &i, (*ret!=NULL));
-    if (!*ret)
+    v = jsonGen1Value(interp, p, js, i, &i, (*ret!=NULL), 0);
+    if (p->errStr) {
+        if (!*ret)
+            Jsi_IncrRefCount(interp, v);
+        Jsi_DecrRefCount(interp, v);
+        if (interp)
+            Jsi_LogError("JSON parse error (%s)", p->errStr);
+        result = JSI_ERROR;
+    } else if (!*ret)
         *ret = v;
     else {
         Jsi_ValueReplace(interp, ret, v);
-- 
2.43.0


From df5916de1b76b970e0a3364b402e91aadf3e6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 42/70] fix: freeing deeply nested objects overflowed the C
 stack

---
 src/jsiInt.h |  3 +++
 src/jsiObj.c | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 5947e42..0c2b3ba 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -879,6 +879,7 @@ enum {
     JSI_MAX_EVAL_DEPTH=200, /* default max nesting depth for eval */
     JSI_MAX_INCLUDE_DEPTH=50,  JSI_MAX_SUBINTERP_DEPTH=10,
     JSI_MAX_JSON_DEPTH=2000, /* max nesting of JSON data */
+    JSI_MAX_FREE_DEPTH=500,  /* objects nested deeper are freed later, to bound recursion */
     JSI_IS_UTF=1,
     JSI_UTF_CHECKED=2
     /*,JSI_ON_STACK=0x80*/
@@ -1175,6 +1176,8 @@ struct Jsi_Interp {
     int includeDepth;
     int includeCnt;
     int maxInterpDepth;
+    int objFreeDepth;      /* Nesting level of Jsi_ObjFree. */
+    Jsi_Obj *objFreeList;  /* Objects waiting for Jsi_ObjFree. */
     int interpDepth;
     int pkgReqDepth;
     int didReturn;
diff --git a/src/jsiObj.c b/src/jsiObj.c
index 0519ea0..934baee 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -306,6 +306,12 @@ Jsi_Obj *Jsi_ObjNewType(Jsi_Interp *interp, Jsi_otype otype)
 
 void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
 {
+    if (interp->objFreeDepth >= JSI_MAX_FREE_DEPTH) {
+        obj->constructor = interp->objFreeList; // Unused in a dead object.
+        interp->objFreeList = obj;
+        return;
+    }
+    interp->objFreeDepth++;
     interp->dbPtr->objCnt--;
     //jsi_AllObjOp(interp, obj, 0);
 #ifdef JSI_MEM_DEBUG
@@ -367,6 +373,11 @@ void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
     memset(obj, 0, (sizeof(*obj)-sizeof(obj->VD)));
 #endif
     Jsi_Free(obj);
+    interp->objFreeDepth--;
+    while (interp->objFreeDepth == 0 && (obj = interp->objFreeList)) {
+        interp->objFreeList = obj->constructor;
+        Jsi_ObjFree(interp, obj);
+    }
 }
 
 
-- 
2.43.0


From b352f80c2a3c982bf1a6b40331ba11a88bff1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 43/70] fix: maxUserObjs allowed one object too many

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 89c1e7a..ad28a33 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1261,7 +1261,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 break;
             }
             case OP_NEWFCALL:
-                if (interp->maxUserObjs && interp->userObjCnt > interp->maxUserObjs) {
+                if (interp->maxUserObjs && interp->userObjCnt >= interp->maxUserObjs) {
                     rc = Jsi_LogError("Max 'new' count exceeded");
                     break;
                 }
-- 
2.43.0


From 8b18a24574e67c36af5362bbd6ad513b60827299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 44/70] fix: puts of a string with many NUL bytes overflowed
 the C stack

---
 src/jsiFilesys.c | 55 +++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index bbebe91..ae57548 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1011,35 +1011,42 @@ int Jsi_Printf(Jsi_Interp *interp, Jsi_Channel chan, const char *fmt, ...)
     return n;
 }
 
-int Jsi_Puts(Jsi_Interp *interp, Jsi_Channel chan, const char *str, int size)
+static int jsi_PutsStr(Jsi_Interp *interp, Jsi_Channel chan, const char *str)
 {
-    int code = 0, len = Jsi_Strlen(str);
     if (chan->fsPtr==0 || !chan->fsPtr->putsProc) {
         FILE *fp = (chan && chan->fp ? chan->fp : stdout);
-        code = fputs(str, fp);
-    } else {
-        if (interp && interp->debugOpts.putsCallback && interp->parent) {
-            int code = 0;
-            Jsi_DString jStr={}, kStr={};
-            Jsi_DSPrintf(&kStr, "[%s, %d]",
-                Jsi_JSONQuote(interp, str, size, &jStr), (chan->fp == stderr?1:0));
-            if (Jsi_FunctionInvokeJSON(interp->parent, interp->debugOpts.putsCallback, Jsi_DSValue(&kStr), NULL, NULL) != JSI_OK)
-                code = 1;
-            Jsi_DSFree(&jStr);
-            Jsi_DSFree(&kStr);
-            return code;
-        } else if (interp && interp->stdoutStr) {
-            Jsi_DString dStr = {};
-            Jsi_DSAppend(&dStr, Jsi_ValueString(interp, interp->stdoutStr, NULL), NULL);
-            Jsi_DSAppend(&dStr, str, NULL);
-            Jsi_ValueFromDS(interp, &dStr, &interp->stdoutStr);
-        } else
+        return fputs(str, fp);
+    }
+    if (interp && interp->stdoutStr) {
+        Jsi_DString dStr = {};
+        Jsi_DSAppend(&dStr, Jsi_ValueString(interp, interp->stdoutStr, NULL), NULL);
+        Jsi_DSAppend(&dStr, str, NULL);
+        Jsi_ValueFromDS(interp, &dStr, &interp->stdoutStr);
+        return 0;
+    }
+    return chan->fsPtr->putsProc(chan, str);
+}
 
-            code = chan->fsPtr->putsProc(chan, str);
+int Jsi_Puts(Jsi_Interp *interp, Jsi_Channel chan, const char *str, int size)
+{
+    int code = 0, len = Jsi_Strlen(str);
+    if (chan->fsPtr && chan->fsPtr->putsProc && interp && interp->debugOpts.putsCallback && interp->parent) {
+        Jsi_DString jStr={}, kStr={};
+        Jsi_DSPrintf(&kStr, "[%s, %d]",
+            Jsi_JSONQuote(interp, str, size, &jStr), (chan->fp == stderr?1:0));
+        if (Jsi_FunctionInvokeJSON(interp->parent, interp->debugOpts.putsCallback, Jsi_DSValue(&kStr), NULL, NULL) != JSI_OK)
+            code = 1;
+        Jsi_DSFree(&jStr);
+        Jsi_DSFree(&kStr);
+        return code;
     }
-    if (size>=0 && len>0 && len < size) {
-        Jsi_Puts(interp, chan, "\\0", -1);
-        Jsi_Puts(interp, chan, str+len+1, size-len-1);
+    code = jsi_PutsStr(interp, chan, str);
+    while (size>=0 && len>0 && len < size) {
+        jsi_PutsStr(interp, chan, "\\0");
+        str += len+1;
+        size -= len+1;
+        len = Jsi_Strlen(str);
+        jsi_PutsStr(interp, chan, str);
     }
     return code;
 }
-- 
2.43.0


From d49f51827c562f1f4d690e37373bb0c18316e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 45/70] fix: glob patterns with many stars overflowed the C
 stack

---
 src/jsiUtils.c | 79 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 1333f25..7bbf8a4 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2172,9 +2172,12 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
 {
     int c;
     int pchar;
-    while (*pattern) {
-        switch (pattern[0]) {
-            case '*':
+    // On mismatch, resume after the last '*', one character later in string.
+    const char *starPat = NULL, *starStr = NULL, *cpat;
+    while (1) {
+        bool ok = 1;
+        while (ok && *pattern) {
+            if (pattern[0] == '*') {
                 while (pattern[1] == '*') {
                     pattern++;
                 }
@@ -2182,29 +2185,34 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
                 if (!pattern[0]) {
                     return 1;   /* match */
                 }
-                while (*string) {
-                    if (Jsi_GlobMatch(pattern, string, nocase))
-                        return 1;       /* match */
-                    string += Jsi_UtfToUniChar(string, &c);
-                }
-                return 0;       /* no match */
-
+                if (!*string)
+                    return 0;
+                starPat = pattern;
+                starStr = string;
+                continue;
+            }
+            if (!*string) {
+                ok = 0;
+                break;
+            }
+            switch (pattern[0]) {
             case '?':
                 string += Jsi_UtfToUniChar(string, &c);
                 break;
 
-            case '[': {
-                    string += Jsi_UtfToUniChar(string, &c);
-                    pattern = JsiCharsetMatch(pattern + 1, c, nocase ? JSI_CMP_NOCASE : 0);
-                    if (!pattern) {
-                        return 0;
-                    }
-                    if (!*pattern) {
-                        /* Ran out of pattern (no ']') */
-                        continue;
-                    }
-                    break;
+            case '[': 
+                string += Jsi_UtfToUniChar(string, &c);
+                cpat = JsiCharsetMatch(pattern + 1, c, nocase ? JSI_CMP_NOCASE : 0);
+                if (!cpat) {
+                    ok = 0;
+                    continue;
                 }
+                pattern = cpat;
+                if (!*pattern) {
+                    /* Ran out of pattern (no ']') */
+                    continue;
+                }
+                break;
             case '\\':
                 if (pattern[1]) {
                     pattern++;
@@ -2214,22 +2222,29 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
                 string += Jsi_UtfToUniCharCase(string, &c, nocase);
                 Jsi_UtfToUniCharCase(pattern, &pchar, nocase);
                 if (pchar != c) {
-                    return 0;
+                    ok = 0;
+                    continue;
+                }
+                break;
+            }
+            pattern += Jsi_UtfToUniCharCase(pattern, &pchar, nocase);
+            if (!*string) {
+                while (*pattern == '*') {
+                    pattern++;
                 }
                 break;
-        }
-        pattern += Jsi_UtfToUniCharCase(pattern, &pchar, nocase);
-        if (!*string) {
-            while (*pattern == '*') {
-                pattern++;
             }
-            break;
         }
+        if (ok && !*pattern && !*string)
+            return 1;
+        if (!starPat)
+            return 0;
+        starStr += Jsi_UtfToUniChar(starStr, &c);
+        if (!*starStr)
+            return 0;
+        string = starStr;
+        pattern = starPat;
     }
-    if (!*pattern && !*string) {
-        return 1;
-    }
-    return 0;
 }
 
 Jsi_Stack* Jsi_StackNew(void)
-- 
2.43.0


From 62074f48e4ffe5297c07710d428b00311bf30bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 46/70] fix: recursion through call and apply alone overflowed
 the C stack

---
 src/jsiProto.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 5fc0665..da5f64e 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -334,6 +334,8 @@ static Jsi_RC jsi_FunctionBindCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC Jsi_FunctionCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret)
 {
+    if (interp->maxDepth>0 && interp->callDepth>=interp->maxDepth)
+        return Jsi_LogError("max call depth exceeded");
     if (!Jsi_ValueIsFunction(interp, _this)) 
         return Jsi_LogError("can not execute expression, expression is not a function");
 
@@ -453,6 +455,8 @@ Jsi_RC jsi_ObjectToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 Jsi_RC Jsi_FunctionApply(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret)
 {
+    if (interp->maxDepth>0 && interp->callDepth>=interp->maxDepth)
+        return Jsi_LogError("max call depth exceeded");
     if (!Jsi_ValueIsFunction(interp, _this)) 
         return Jsi_LogError("can not execute expression, expression is not a function");
 
-- 
2.43.0


From c0b152615fbc50103b0683e09c2790b5a0368090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 47/70] fix: setPrototypeOf made cycles, leaked the old and did
 not hold the new prototype

---
 src/jsiProto.c | 26 +++++++++++++----
 src/jsiValue.c | 77 ++++++++++++++++++++++++++------------------------
 2 files changed, 61 insertions(+), 42 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index da5f64e..da88489 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -591,11 +591,27 @@ static Jsi_RC jsi_SetPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_Value *a = Jsi_ValueArrayIndex(interp, args,1);
     if (!v || !a || v->vt != JSI_VT_OBJECT || a->vt != JSI_VT_OBJECT)
         return JSI_ERROR;
-    if (a->d.obj->tree->numEntries && a->d.obj != v->d.obj) {
-        v->d.obj->__proto__ = Jsi_ValueDup(interp, a);
-        v->d.obj->clearProto = 1;
-    } else
-        v->d.obj->__proto__ = a->d.obj->__proto__;
+    Jsi_Obj *obj = v->d.obj, *aobj = a->d.obj;
+    if (aobj == obj)
+        return JSI_OK;
+    Jsi_Value *p, *old = (obj->clearProto ? obj->__proto__ : NULL);
+    bool empty = (!aobj->tree || !aobj->tree->numEntries);
+    Jsi_Value *proto = (empty ? aobj->__proto__ : a);
+    for (p = proto; p && p->vt == JSI_VT_OBJECT; p = p->d.obj->__proto__) {
+        if (p->d.obj == obj)
+            return Jsi_LogError("cyclic prototype");
+        if (p->d.obj->__proto__ == p)
+            break;
+    }
+    if (proto && (!empty || aobj->clearProto)) {
+        obj->__proto__ = Jsi_ValueDup(interp, proto);
+        obj->clearProto = 1;
+    } else {
+        obj->__proto__ = proto;
+        obj->clearProto = 0;
+    }
+    if (old)
+        Jsi_DecrRefCount(interp, old);
     return JSI_OK;
 }
 #endif
diff --git a/src/jsiValue.c b/src/jsiValue.c
index fbd42a3..4b671f7 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -982,36 +982,33 @@ Jsi_Value *Jsi_StringSplit(Jsi_Interp *interp, const char *str, const char *spli
 
 static Jsi_Value *jsi_ValueLookupBase(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *key, Jsi_Value **ret, bool right_val)
 {
-    if (!target)
-        return NULL;
-    if (target->vt != JSI_VT_OBJECT) {
-        Jsi_LogError("subscript operand is not object");
-        return NULL;
-    }
-    const char *keyStr = Jsi_ValueToString(interp, key, NULL);
-    if (!keyStr)
-        return NULL;
-    bool isStrKey = (key->vt == JSI_VT_STRING /*&& key->f.bits.isstrkey*/);
-    Jsi_Value *v = Jsi_ValueObjLookup(interp, target, (char*)keyStr, isStrKey);
-    if (v)
-        return v;
-    Jsi_Obj *obj = target->d.obj;
-    if (obj->getters) {
-        Jsi_HashEntry *hPtr = Jsi_HashEntryFind(obj->getters, keyStr);
-        if (hPtr) {
-            Jsi_RC rc = jsi_GetterCall(interp, hPtr, &interp->GetterValue, target, JSI_ACCESSOR_TOOBJECT);
-            if (rc == JSI_OK) {
-                v = interp->GetterValue;
-                v->f.bits.isgetter = 1;
-                return v;
-            }
-            //else Jsi_DecrRefCount(interp, vres);
+    for (; target; target = target->d.obj->__proto__) {
+        if (target->vt != JSI_VT_OBJECT) {
+            Jsi_LogError("subscript operand is not object");
             return NULL;
         }
-        
+        const char *keyStr = Jsi_ValueToString(interp, key, NULL);
+        if (!keyStr)
+            return NULL;
+        bool isStrKey = (key->vt == JSI_VT_STRING /*&& key->f.bits.isstrkey*/);
+        Jsi_Value *v = Jsi_ValueObjLookup(interp, target, (char*)keyStr, isStrKey);
+        if (v)
+            return v;
+        Jsi_Obj *obj = target->d.obj;
+        if (obj->getters) {
+            Jsi_HashEntry *hPtr = Jsi_HashEntryFind(obj->getters, keyStr);
+            if (hPtr) {
+                Jsi_RC rc = jsi_GetterCall(interp, hPtr, &interp->GetterValue, target, JSI_ACCESSOR_TOOBJECT);
+                if (rc == JSI_OK) {
+                    v = interp->GetterValue;
+                    v->f.bits.isgetter = 1;
+                    return v;
+                }
+                //else Jsi_DecrRefCount(interp, vres);
+                return NULL;
+            }
+        }
     }
-    if (obj->__proto__)
-        return jsi_ValueLookupBase(interp, obj->__proto__, key, ret, right_val);
     return NULL;
 }
 
@@ -1136,13 +1133,14 @@ Jsi_Value* jsi_ValueSubscript(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *
 bool Jsi_ValueKeyPresent(Jsi_Interp *interp, Jsi_Value *target, const char *key, int isstrkey)
 {
     SIGASSERT(interp,INTERP);
-    if (!Jsi_ValueIsObjType(interp, target, JSI_OT_OBJECT))
-        return 0;
-    if (Jsi_TreeObjGetValue(target->d.obj, key, isstrkey))
-        return 1;
-    if (target->d.obj->__proto__ == NULL || target->d.obj->__proto__ == target)
-        return 0;
-    return Jsi_ValueKeyPresent(interp, target->d.obj->__proto__, key, isstrkey);
+    while (Jsi_ValueIsObjType(interp, target, JSI_OT_OBJECT)) {
+        if (Jsi_TreeObjGetValue(target->d.obj, key, isstrkey))
+            return 1;
+        if (target->d.obj->__proto__ == NULL || target->d.obj->__proto__ == target)
+            return 0;
+        target = target->d.obj->__proto__;
+    }
+    return 0;
 }
 
 void jsi_ValueObjGetKeys(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *ret, bool isof)
@@ -1461,6 +1459,8 @@ static Jsi_RC IterGetKeysCallback(Jsi_Tree* tree, Jsi_TreeEntry *hPtr, void *dat
 
 void Jsi_IterGetKeys(Jsi_Interp *interp, Jsi_Value *target, Jsi_IterObj *iterobj, int depth)
 {
+    int depth0 = depth;
+next:
     if (!target) return;
     if (target->vt != JSI_VT_OBJECT) {
         if (!interp->noCheck)
@@ -1497,9 +1497,12 @@ void Jsi_IterGetKeys(Jsi_Interp *interp, Jsi_Value *target, Jsi_IterObj *iterobj
 
     iterobj->depth = depth;
     Jsi_TreeWalk(target->d.obj->tree, IterGetKeysCallback, iterobj, 0);
-    if (target->d.obj->__proto__ && target != target->d.obj->__proto__)
-        Jsi_IterGetKeys(interp, target->d.obj->__proto__, iterobj, depth+1);
-    iterobj->depth = depth;
+    if (target->d.obj->__proto__ && target != target->d.obj->__proto__) {
+        target = target->d.obj->__proto__;
+        depth++;
+        goto next;
+    }
+    iterobj->depth = depth0;
 }
 
 Jsi_RC jsi_ObjSetFlag(Jsi_Interp *interp, Jsi_Obj *obj, int flag, int on) {
-- 
2.43.0


From 9d7174e64dd4a6c244b761d774d0be8530bcd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 48/70] fix: deferred objects are freed by the outermost
 Jsi_ObjFree only

---
 src/jsiObj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 934baee..71de41a 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -373,11 +373,11 @@ void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
     memset(obj, 0, (sizeof(*obj)-sizeof(obj->VD)));
 #endif
     Jsi_Free(obj);
-    interp->objFreeDepth--;
-    while (interp->objFreeDepth == 0 && (obj = interp->objFreeList)) {
+    while (interp->objFreeDepth == 1 && (obj = interp->objFreeList)) {
         interp->objFreeList = obj->constructor;
         Jsi_ObjFree(interp, obj);
     }
+    interp->objFreeDepth--;
 }
 
 
-- 
2.43.0


From 438d0d4370f322594ea11b7b940f23c5bbdb3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 49/70] fix: comparing values of different types truncated the
 difference to an integer (0.5 == "0.7" was true)

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 4b671f7..fdba7a2 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -919,7 +919,7 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
             Jsi_Number n1, n2;
             Jsi_ValueToNumberInt(interp, v1, 0, &n1);
             Jsi_ValueToNumberInt(interp, v2, 0, &n2);
-            r = (n2 - n1);
+            r = (n1 == n2 ? 0 : (n2 < n1 ? -1 : 1));
         }
     } else {
         switch (v1->vt) {
-- 
2.43.0


From 932941fe3c18841274be09eb9eb9e9f102f9a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 50/70] fix: String(new Number(NaN)) read the value's number
 member of an object value

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index fdba7a2..591ce68 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -520,7 +520,7 @@ fmtnum:
                 Jsi_NumberDtoA(interp, d, unibuf, sizeof(unibuf), 0);
                 kflag = 0;
                 ntxt = unibuf;
-            } else if (Jsi_NumberIsNaN(v->d.num)) {
+            } else if (Jsi_NumberIsNaN(d)) {
                 ntxt = "NaN";
             } else {
                 int s = Jsi_NumberIsInfinity(d);
-- 
2.43.0


From 126cea085c74d5f2c7be8237ee44c8a2e16eb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 51/70] fix: new Array(new Number(3)) read the number member of
 an object value

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 91426a9..04b3e55 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1254,7 +1254,7 @@ static Jsi_RC jsi_ArrayConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         Jsi_Number nv;
         Jsi_GetNumberFromValue(interp,v, &nv);
         int len = (int)nv;
-        if (!Jsi_NumberIsInteger(v->d.num) || len < 0) 
+        if (!Jsi_NumberIsInteger(nv) || len < 0) 
             return Jsi_LogError("Invalid array length");
         target->d.obj->isarrlist = 1;
         if (Jsi_ObjArraySizer(interp, target->d.obj, len) <= 0)
-- 
2.43.0


From 965a69b9a4bba3064d8555ec126a0c34d11c8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:25 +0000
Subject: [PATCH 52/70] fix: the exit code of a module returning a Number
 object read the number member of an object value

---
 src/jsiCmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index f8b5fa2..fbab5f7 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4781,7 +4781,9 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_DecrRefCount(interp, vpargs);
     if (rc == JSI_OK && func->pkg && func->pkg->popts.conf.exit && Jsi_ValueIsNumber(interp, *ret)
         && !interp->parent) {
-        interp->exitCode = (*ret)->d.num;
+        Jsi_Number enr = 0;
+        Jsi_GetNumberFromValue(interp, *ret, &enr);
+        interp->exitCode = (int)enr;
         rc = JSI_EXIT;
     }
     else if (rc == JSI_OK && !Jsi_ValueIsUndef(interp, *ret) && isMain && funcPtr && funcPtr->callflags.bits.isdiscard) {
-- 
2.43.0


From 33faccaee4c6f2ebc1261f5985b809bc55d4c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 53/70] fix: format() with many flags, or a huge width or
 precision, overflowed its buffers

---
 src/jsiFormat.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 7dc4747..14f1432 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -86,7 +86,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
         int step;
         int doubleType;
         char pad = ' ';
-        char spec[100];
+        char spec[200];
         char *p;
 
         int formatted_chars;
@@ -149,7 +149,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
                 continue;
             }
             *p++ = ch;
-            if ((p-spec)>(int)(sizeof(spec)-10)) {
+            if ((p-spec)>(int)(sizeof(spec)-100)) { // Leaves space for width, precision, etc.
                 msg = "spec too long";
                 goto error;
             }
@@ -222,6 +222,11 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
             step = Jsi_UtfToUniChar(format, &ch);
         }
 
+        if (width < 0 || width > JSI_MAX_ALLOC_BUF/4 || precision < 0 || precision > JSI_MAX_ALLOC_BUF/4) {
+            msg = "width or precision too large";
+            goto error;
+        }
+
         /*
          * Step 5. Length modifier.
          */
-- 
2.43.0


From 00260e43132affc5256116800ec898485ba08157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 54/70] fix: strftime with a long text after %f overflowed its
 buffer

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index fbab5f7..f18e7f5 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2078,7 +2078,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     }
     
     const char *efp = Jsi_Strstr(fmt, "%f");
-    if (efp && efp > fmt && efp[-1] != '%' && ((efp-fmt)+10)<(int)sizeof(fmt1)) {
+    if (efp && efp > fmt && efp[-1] != '%' && ((efp-fmt)+10)<(int)sizeof(fmt1) && Jsi_Strlen(efp+2)<sizeof(fmt2)) {
         int elen = (efp-fmt)+1;
         Jsi_Strncpy(fmt1, fmt, elen);
         Jsi_Strcpy(fmt1+elen, "%S.");
-- 
2.43.0


From b6629772a3343f9e8f37542a8037fb116a4ac50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:52 +0000
Subject: [PATCH 55/70] fix: Zvfs.list read a month name beyond its table for
 an archive with a bad date

---
 src/jsiZvfs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index a04612a..c111c9d 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1603,9 +1603,11 @@ static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime)
                               "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
                             };
 
+    int mon = ((dosDate&0x1e0)>>5);
+    if (mon>12) mon = 0;
     snprintf(zStr, zsiz, "%02d-%s-%d %02d:%02d:%02d",
             dosDate & 0x1f,
-            zMonth[ ((dosDate&0x1e0)>>5) ],
+            zMonth[mon],
             ((dosDate&0xfe00)>>9) + 1980,
             (dosTime&0xf800)>>11,
             (dosTime&0x7e)>>5,
-- 
2.43.0


From ee053850754436eb06fa2e213180e2476c93d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:12 +0000
Subject: [PATCH 56/70] fix: sort() used array storage and elements freed by
 its compare function, and left duplicates behind the end

---
 src/jsiArray.c | 76 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 04b3e55..97792a0 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1049,8 +1049,9 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     if (_this->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, _this->d.obj))
         return Jsi_LogError("expected array object");
 
-    int flags = 0, i, curlen, hasopt = 0;
-    Jsi_Value *v, *arg = NULL;
+    int flags = 0, i, n, ncnt, curlen, hasopt = 0;
+    Jsi_RC rc = JSI_OK;
+    Jsi_Value *v, *arg = NULL, **elts;
     SortInfo si = {};
     si.interp = interp;
 
@@ -1082,57 +1083,82 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     obj->modifying = 1;
     si.flags = flags;
     Jsi_ObjListifyArray(interp, obj);
+    // The compare function can change the array: sort a copy that holds on to the elements.
+    ncnt = curlen;
+    elts = (Jsi_Value**)Jsi_Calloc(curlen, sizeof(Jsi_Value*));
+    for (i=0; i<curlen && i<(int)obj->arrCnt; i++) {
+        elts[i] = obj->arr[i];
+        if (elts[i])
+            Jsi_IncrRefCount(interp, elts[i]);
+    }
 #ifdef NO_QSORT_R
     /* TODO: mutex. */
     curSortInfo = &si;
-    qsort(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd);
+    qsort(elts, curlen, sizeof(Jsi_Value*), SortSubCmd);
 #else
-    qsort_r(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
+    qsort_r(elts, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
 #endif
 
-    if (interp->deleting) {
-#ifdef NO_QSORT_R
-        curSortInfo = NULL;
-#endif
-        return JSI_ERROR;
-    }
-    if (si.unique) {
-        int n, diff = 1, dupCnt=0;
-        for (n=0, i=1; i<(int)obj->arrCnt; i++) {
-            if (obj->arr[n] == obj->arr[i])
+    if (!interp->deleting && si.unique) {
+        int diff;
+        for (n=0, i=1; i<curlen; i++) {
+            if (elts[n] == elts[i])
                 diff = 1;
             else
 #ifdef NO_QSORT_R
-                diff = SortSubCmd(&obj->arr[n], &obj->arr[i]);
+                diff = SortSubCmd(&elts[n], &elts[i]);
 #else
 #ifdef __WIN32
-                diff = SortSubCmd(&si, &obj->arr[n], &obj->arr[i]);
+                diff = SortSubCmd(&si, &elts[n], &elts[i]);
 #else
-                diff = SortSubCmd(&obj->arr[n], &obj->arr[i], &si);
+                diff = SortSubCmd(&elts[n], &elts[i], &si);
 #endif
 #endif
             if (diff) {
                 n++;
-                if (n!=i)
-                    obj->arr[n] = obj->arr[i];
+                if (n!=i) {
+                    elts[n] = elts[i];
+                    elts[i] = NULL;
+                }
             } else {
-                dupCnt++;
-                if (obj->arr[i])
-                    Jsi_DecrRefCount(interp, obj->arr[i]);
-                obj->arr[i] = 0;
+                if (elts[i])
+                    Jsi_DecrRefCount(interp, elts[i]);
+                elts[i] = NULL;
             }
         }
-        obj->arrCnt -= dupCnt;
+        ncnt = n+1;
+    }
+    if (interp->deleting || Jsi_ObjArraySizer(interp, obj, curlen) <= 0)
+        rc = JSI_ERROR;
+    for (i=0; i<curlen; i++) {
+        Jsi_Value *ov = elts[i];
+        if (rc == JSI_OK) {
+            ov = obj->arr[i];
+            obj->arr[i] = elts[i];
+        }
+        if (ov)
+            Jsi_DecrRefCount(interp, ov);
+    }
+    if (rc == JSI_OK && ncnt<curlen) {
+        // Close the gap that is left by the duplicates.
+        for (n=ncnt, i=curlen; i<(int)obj->arrCnt; i++, n++) {
+            obj->arr[n] = obj->arr[i];
+            obj->arr[i] = NULL;
+        }
+        obj->arrCnt = n;
     }
+    Jsi_Free(elts);
 #ifdef NO_QSORT_R
     curSortInfo = NULL;
 #endif
     if (hasopt)
         Jsi_OptionsFree(interp, jsi_ArraySortOptions, &si, 0);
+    obj->modifying = 0;
 done:
+    if (rc != JSI_OK)
+        return rc;
     v = Jsi_ValueMakeObject(interp, NULL, obj);
     Jsi_ValueReplace(interp, ret, v);
-    obj->modifying = 0;
     return JSI_OK;
 }
 
-- 
2.43.0


From 68f50d77d7c7ccb02ff408a92ec338ecdfcf2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:12 +0000
Subject: [PATCH 57/70] fix: an event that deleted itself or another event was
 used after it was freed

---
 src/jsiCmds.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index f18e7f5..5379af4 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -244,9 +244,9 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     Jsi_Event *evPtr;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch search;
-    Jsi_Value* nret = NULL;
+    Jsi_Value* nret = NULL, *func;
     Jsi_RC rc;
-    int cnt = 0, newIdx = interp->eventIdx;
+    int cnt = 0, newIdx = interp->eventIdx, i, nids = 0;
     long cur_sec, cur_ms;
     jsiGetTime(&cur_sec, &cur_ms);
     Jsi_Value *vpargs = NULL;
@@ -254,10 +254,16 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     /*if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
         return JSI_ERROR;*/
 
+    /* An event function can delete events, itself included: go by the ids. */
+    uintptr_t id, *ids = (uintptr_t*)Jsi_Calloc(Jsi_HashSize(interp->eventTbl)+1, sizeof(*ids));
     for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
-            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search))
+        ids[nids++] = (uintptr_t)Jsi_HashKeyGet(hPtr);
 
-        if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+    for (i=0; i<nids; i++) {
+        id = ids[i];
+        hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)id);
+        if (!hPtr || !(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
             continue;
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
@@ -295,9 +301,17 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             if (!nret)
                 nret = Jsi_ValueNew1(interp);
-            rc = Jsi_FunctionInvoke(interp, evPtr->funcVal, vpargs, &nret, NULL);
+            func = evPtr->funcVal;
+            if (func)
+                Jsi_IncrRefCount(interp, func);
+            rc = Jsi_FunctionInvoke(interp, func, vpargs, &nret, NULL);
+            if (func)
+                Jsi_DecrRefCount(interp, func);
         }
-        evPtr->busy = 0;
+        hPtr = (interp->eventTbl ? Jsi_HashEntryFind(interp->eventTbl, (void*)id) : NULL);
+        evPtr = (hPtr ? (Jsi_Event*)Jsi_HashValueGet(hPtr) : NULL);
+        if (evPtr)
+            evPtr->busy = 0;
         if (interp->deleting) {
             cnt = -1;
             goto bail;
@@ -309,7 +323,9 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             Jsi_LogError("event function call failure");
         }
-        if (evPtr->once) {
+        if (!evPtr) {
+            /* Deleted by its own function. */
+        } else if (evPtr->once) {
             Jsi_EventFree(interp, evPtr);
         } else {
             evPtr->when_sec = cur_sec + evPtr->initialms / 1000;
@@ -323,6 +339,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
     }
 bail:
+    Jsi_Free(ids);
     if (vpargs)
         Jsi_DecrRefCount(interp, vpargs);
     if (nret)
-- 
2.43.0


From bd3f5c71c70c03e6ccaccf7bcdd96f214495926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 58/70] fix: a query run while the same SQL is being stepped
 through used its statement, or crashed

---
 src/jsiSqlite.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 187927c..f02c8c3 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -157,6 +157,7 @@ typedef struct SqlPreparedStmt SqlPreparedStmt;
 struct SqlPreparedStmt {
     Sqlite_Sig sig;
     int deleting;
+    int inUse;               /* A query is stepping through it */
     SqlPreparedStmt *pNext;  /* Next in linked list */
     SqlPreparedStmt *pPrev;  /* Previous on the list */
     sqlite3_stmt    *pStmt;  /* The prepared statement */
@@ -619,7 +620,8 @@ static void dbReleaseStmt(
     }*/
     //pPreStmt->nParm = 0;
 
-    if( db->stmtCacheMax<=0 || discard ) {
+    pPreStmt->inUse = 0;
+    if( db->stmtCacheMax<=0 || discard || !pPreStmt->entry ) {
         /* If the cache is turned off, deallocated the statement */
         dbPrepStmtFree(db, pPreStmt);
     } else {
@@ -694,8 +696,10 @@ static Jsi_RC dbPrepareStmt(
     }
     //nSql = Jsi_Strlen(zSql);
     Jsi_HashEntry *entry = Jsi_HashEntryFind(db->stmtHash, zSql);
-    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)))) {
-        
+    if (entry && (pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)) && pPreStmt->inUse)
+        pPreStmt = 0;   /* An outer query is stepping through it: compile another one. */
+    if (pPreStmt) {
+
         if (db->debug & TMODE_PREPARE)
             JSI_DBQUERY_PRINTF( "DEBUG: prepare cache-hit: %s\n", zSql);
         pStmt = pPreStmt->pStmt;
@@ -748,15 +752,17 @@ static Jsi_RC dbPrepareStmt(
         pPreStmt->zSql = sqlite3_sql(pStmt);
         bool isNew = 0;
         pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
-        if (!isNew)
-            JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
-        Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        if (isNew)
+            Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        else
+            pPreStmt->entry = NULL; /* Not cached: the entry belongs to the one in use. */
             
         //pPreStmt->apParm = (Jsi_Value **)&pPreStmt[1];
     }
     assert( pPreStmt );
     assert( Jsi_Strlen(pPreStmt->zSql)==pPreStmt->nSql );
     assert( 0==memcmp(pPreStmt->zSql, zSql, pPreStmt->nSql) );
+    pPreStmt->inUse = 1;
     *ppPreStmt = pPreStmt;
     //pPreStmt->nParm = iParm; 
     return rc;
-- 
2.43.0


From 4d3cd7d47cfca41d1f3a2dc566a8baf7622b06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 59/70] fix: the function of an SQL collation was not kept, and
 its arguments were freed twice

---
 src/jsiSqlite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index f02c8c3..81d4927 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1079,6 +1079,7 @@ static void dbDeleteCmd(Jsi_Db *db)
     while( db->pCollate ) {
         SqlCollate *pCollate = db->pCollate;
         db->pCollate = pCollate->pNext;
+        Jsi_DecrRefCount(interp, pCollate->zScript);
         Jsi_Free((char*)pCollate);
     }
 
@@ -1335,6 +1336,7 @@ static int dbSqlCollate(
     items[1] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zA);
     items[2] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zB);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
+    Jsi_IncrRefCount(interp, vpargs);
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
@@ -2060,6 +2062,7 @@ static Jsi_RC SqliteCollateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     pCollate->interp = interp;
     pCollate->pNext = db->pCollate;
     pCollate->zScript = func; /*(char*)&pCollate[1];*/
+    Jsi_IncrRefCount(interp, func);
     db->pCollate = pCollate;
 
     if( sqlite3_create_collation(db->db, zName, SQLITE_UTF8, pCollate, dbSqlCollate) )
-- 
2.43.0


From b2f0ea49a77be531c2bde8d0de5bd5e1329b9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 60/70] fix: onCommit and onRollback were called without the
 database argument they must take

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 81d4927..320a84d 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1213,7 +1213,7 @@ static int dbCommitHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, NULL, &ret, NULL) ) {
+    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, vpargs, &ret, NULL) ) {
         db->errCnt++;
         rc = 1;
     } else
@@ -1257,7 +1257,7 @@ static void dbRollbackHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    Jsi_FunctionInvoke(interp, db->onRollback, NULL, &ret, NULL);
+    Jsi_FunctionInvoke(interp, db->onRollback, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     Jsi_DecrRefCount(interp, ret);
 }
-- 
2.43.0


From 2529242ca68be3e60c8b3b59bb0fb30ec5c489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 61/70] fix: the result of onAuth and onWalHook was put in a
 value without references

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 320a84d..3ae97fc 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1237,7 +1237,7 @@ static int dbWalHandler( void *cd, sqlite3 *sdb, const char *zDb, int nEntry ){
     items[2] = Jsi_ValueMakeNumber(interp, NULL, (Jsi_Number)nEntry);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onWalHook, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     if (rc != JSI_OK) {
@@ -1652,7 +1652,7 @@ static int dbAuthCallback(
     items[i++] = Jsi_ValueMakeStringDup(interp, NULL, zArg4 ? zArg4 : "");
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onAuth, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
 
-- 
2.43.0


From 0e49288e667ed91183bdb17c6fa9350811c77366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 62/70] fix: ++ or -- of a member ran the setter of another
 object read earlier, on a freed object or with a wrong this

---
 src/jsiEval.c  | 29 +++++++++++++++++++++++++----
 src/jsiValue.c |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index ad28a33..7a55d10 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1122,6 +1122,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
     jsi_TryList  *trylist = NULL;
     jsi_Frame *fp = interp->framePtr;
     Jsi_HashEntry *hPtrGet = NULL;
+    Jsi_Obj *objGet = NULL; // Object subscripted to get hPtrGet: kept until then.
     bool strict = !interp->noCheck;
     const char *curFile = NULL, *throwStr;
     
@@ -1134,8 +1135,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
     
     while(ip < end && rc == JSI_OK) {
         int plop = ip->op;
-        if (lop != OP_SUBSCRIPT)
+        if (lop != OP_SUBSCRIPT) {
             hPtrGet = NULL;
+            if (objGet) {
+                Jsi_ObjDecrRefCount(interp, objGet);
+                objGet = NULL;
+            }
+        }
 
         if (ip->logidx) { // Mask out LogDebug, etc if not enabled.
             uint oli = ip->logidx, logflag2 = jsi_GetLogFlag(interp, ip->logidx, NULL);
@@ -1287,9 +1293,19 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             }
             case OP_SUBSCRIPT: {
                 jsiVarDeref(interp,2);
+                Jsi_Obj *sobj = (_jsi_TOQ->vt == JSI_VT_OBJECT ? _jsi_TOQ->d.obj : NULL);
+                if (sobj)
+                    Jsi_ObjIncrRefCount(interp, sobj);
+                interp->hPtrGet = NULL;
                 rc = jsiEvalSubscript(interp, _jsi_TOQ, _jsi_TOP, ip, end, currentScope);
                 jsiPop(interp, 1);
-                hPtrGet = interp->hPtrGet;
+                hPtrGet = (sobj ? interp->hPtrGet : NULL);
+                interp->hPtrGet = NULL;
+                if (objGet)
+                    Jsi_ObjDecrRefCount(interp, objGet);
+                objGet = (hPtrGet ? sobj : NULL);
+                if (sobj && !objGet)
+                    Jsi_ObjDecrRefCount(interp, sobj);
                 break;
             }
             case OP_ASSIGN: {
@@ -1740,8 +1756,11 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 }
                 if (hPtrGet) {
                     // Re-update after modifying a primative from "get()".
-                    Jsi_Value *v2 = (fp->Sp>1?_jsi_TOQ:_jsi_TOP);
-                    jsi_SetterCall(interp, hPtrGet, v, v2, 0);
+                    Jsi_Value *v2 = Jsi_ValueMakeObject(interp, NULL, objGet);
+                    Jsi_IncrRefCount(interp, v2);
+                    if (jsi_SetterCall(interp, hPtrGet, v, v2, 0) != JSI_OK)
+                        rc = JSI_ERROR;
+                    Jsi_DecrRefCount(interp, v2);
                     hPtrGet = NULL;
                 }
                 break;
@@ -2140,6 +2159,8 @@ undef_eval:
         ip++;
     }
 done:
+    if (objGet)
+        Jsi_ObjDecrRefCount(interp, objGet);
     while (trylist) {
         JSI_RESTORE_SCOPE();
         pop_try(trylist);
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 591ce68..3024576 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1393,6 +1393,7 @@ Jsi_RC jsi_GetterCall(Jsi_Interp *interp, Jsi_HashEntry *hPtr, Jsi_Value **vres,
     v = (*vres);
     Jsi_Obj *obj = _this->d.obj;
     if (rc == JSI_OK && flags&JSI_ACCESSOR_TOOBJECT) {
+        interp->hPtrGet = NULL;
         if (obj->setters && v->vt != JSI_VT_OBJECT)
             interp->hPtrGet = Jsi_HashEntryFind(obj->setters, key);
     // NOTE following fails: trying to upgrade primatives to objects to avoid having to call setter after a ++/--.
-- 
2.43.0


From d7a861a2b2831eeadf8547959f3670b42a7eab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 63/70] fix: an alias function that deleted or replaced its own
 alias was used after it was freed

---
 src/jsiInterp.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index b1925a8..d6414f0 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -174,6 +174,7 @@ typedef struct {
     InterpObj *intobj;
     Jsi_Interp *dinterp; // Dest interp.
     Jsi_Interp *subinterp;
+    bool deleted; // Freed by jsi_AliasInvoke once the call is done.
 } AliasCmd;
 
 
@@ -273,6 +274,15 @@ makestr:
     return rc;
 }
 
+static void jsi_AliasRelease(AliasCmd *ac) {
+    if (ac->func)
+        Jsi_DecrRefCount(ac->dinterp, ac->func);
+    if (ac->args)
+        Jsi_DecrRefCount(ac->dinterp, ac->args);
+    _JSI_MEMCLEAR(ac);
+    Jsi_Free(ac);
+}
+
 /* Invoke command in target interp. */
 Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
@@ -354,7 +364,8 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         srpPtr = &srPtr;
     }
     Jsi_RC rc = Jsi_FunctionInvoke(dinterp, ac->func, nargs, srpPtr, NULL);
-    ac->refCount--;
+    if (--ac->refCount <= 0 && ac->deleted)
+        jsi_AliasRelease(ac);
     if (inc)
         Jsi_DecrRefCount(dinterp, nargs);
     Jsi_DecrRefCount(dinterp, nrPtr);
@@ -383,12 +394,13 @@ static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data)
     AliasCmd *ac = (AliasCmd *)data;
     if (!ac) return JSI_ERROR;
     SIGASSERT(ac,ALIASCMD);
-    if (ac->func)
-        Jsi_DecrRefCount(ac->dinterp, ac->func);
-    if (ac->args)
-        Jsi_DecrRefCount(ac->dinterp, ac->args);
-    if (!ac->cmdVal)
+    if (!ac->cmdVal) {
+        if (ac->func)
+            Jsi_DecrRefCount(ac->dinterp, ac->func);
+        if (ac->args)
+            Jsi_DecrRefCount(ac->dinterp, ac->args);
         return JSI_OK;
+    }
     Jsi_Func *fobj = ac->cmdVal->d.obj->d.fobj->func;
     fobj->cmdSpec->reserved[2] = NULL;
     fobj->cmdSpec->proc = NULL;
@@ -398,8 +410,10 @@ static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data)
         //    Jsi_LogBug("alias free with X.Y dot name leaks memory: %s", ac->cmdName);
     } else
         Jsi_DecrRefCount(ac->subinterp, ac->cmdVal);
-    _JSI_MEMCLEAR(ac);
-    Jsi_Free(ac);
+    if (ac->refCount > 0)
+        ac->deleted = 1;
+    else
+        jsi_AliasRelease(ac);
     return JSI_OK;
 }
 
-- 
2.43.0


From b44ef669168ccd588c50cdaf919ed97bbddd3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 64/70] fix: a function called back was freed while running
 when the call dropped its holder

---
 src/jsiFunc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 85c3faf..6b3787a 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -782,10 +782,12 @@ static Jsi_RC jsi_FunctionInvoke(Jsi_Interp *interp, Jsi_Value *tocall, Jsi_Valu
     /* prepare args */
     if (args->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, args->d.obj)) 
         return Jsi_LogError("argument must be an array");
-    /* new this */
+    /* new this: the function is kept too, as the call may drop the holder of it. */
+    Jsi_Value *fcall = Jsi_ValueDup(interp, tocall);
     Jsi_Value *fthis = Jsi_ValueDup(interp, _this ? _this : tocall);
-    Jsi_RC rc = jsi_FuncCallSub(interp, args, tocall, ret, funcPtr, fthis, 0);
+    Jsi_RC rc = jsi_FuncCallSub(interp, args, fcall, ret, funcPtr, fthis, 0);
     Jsi_DecrRefCount(interp, fthis);
+    Jsi_DecrRefCount(interp, fcall);
     return rc;
 }
 
-- 
2.43.0


From 972c39ca037e31aab029603ead57242ddffb0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:11 +0000
Subject: [PATCH 65/70] fix: File.glob with a regexp used the freed current
 directory and searched twice

---
 src/jsiFileCmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 378d930..cb05066 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1257,6 +1257,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         Data.dir = Jsi_ValueNewStringDup(interp, dcp);
         Jsi_IncrRefCount(interp, Data.dir);
         Jsi_DSFree(&dStr);
+        dcp = Jsi_ValueString(interp, Data.dir, NULL);
         isOpts = 1;
     } else {
         dcp = Data.dirStr = Jsi_ValueString(interp, Data.dir, &Data.dirLen);
@@ -1284,9 +1285,10 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (pat == NULL || Jsi_ValueIsNull(interp, pat))
         dcp = "*";
-    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP))
+    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP)) {
         rc = SubGlobsDirectory(interp, obj, pat, NULL, dcp, &Data, 0, 0, _this);
-    else {
+        goto result;
+    } else {
         dcp = Jsi_ValueString(interp, pat, NULL);
         if (!dcp) {
             rc = Jsi_LogError("expected string, regex or null");
@@ -1308,6 +1310,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         dcp = Jsi_DSAppend(&dStr, dcp, NULL);
         
     rc = SubGlobsDirectory(interp, obj, NULL, zPattern, dcp, &Data, 0, 0, _this);
+result:
     if (rc != JSI_OK)
         Jsi_ValueMakeUndef(interp, ret);   
     else if (Data.retCount)
-- 
2.43.0


From 8f67ecdf4ddd5e26cfa84673837882a9ade76195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 66/70] fix: a partly sent socket message was released while
 still queued

---
 src/jsiSocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 69cd020..068a835 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -795,7 +795,8 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             }
             if (cmdPtr->debug)
                 fprintf(stderr, "SOCK:CLIENT WRITE(%d): %d=>%d: %s\n", pss->id, sLen, n, data);
-            Jsi_DecrRefCount(interp, dv);                                   
+            if (n >= osiz)
+                Jsi_DecrRefCount(interp, dv);
             if (n >= 0) {
                 pss->sentCnt++;
                 pss->sentLast = time(NULL);
-- 
2.43.0


From f13bbc669ac2c76c5de1a866c4dd35e4f4e1a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 67/70] fix: Jsi_EvalZip used the freed directory name on its
 second pass

---
 src/jsiInterp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index d6414f0..70ccf59 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2693,8 +2693,8 @@ dochk:
         Jsi_ValueArrayPush(interp, interp->pkgDirs, linit);
     Jsi_DecrRefCount(interp, linit);
     Jsi_DSFree(&dStr);
-    Jsi_DSFree(&bStr);
     if (Jsi_Stat(interp, vinit, &stat) == 0) {
+        Jsi_DSFree(&bStr);
         if (jsFound)
             *jsFound |= JSI_ZIP_MAIN;
         interp->execZip = vexe;
@@ -2716,8 +2716,8 @@ dochk:
         Jsi_DecrRefCount(interp, linit);
         if (bsi == 0)
             goto dochk;
-        Jsi_DSFree(&bStr);
     }
+    Jsi_DSFree(&bStr);
 #endif
     return JSI_OK;
 }
-- 
2.43.0


From a5f87d2b2ed1785a8c998154068da063f86cd4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:49 +0000
Subject: [PATCH 68/70] fix: SQL regexp() read a third argument when given two

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 3ae97fc..d3635f6 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1422,7 +1422,7 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         return;
     }
     const char *str = (char *)sqlite3_value_text(argv[1]);
-    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (char *)sqlite3_value_text(argv[2]);
+    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2 ? (char *)sqlite3_value_text(argv[2]) : NULL);
     int rc = 0;
     bool isNew = 0;
     Jsi_Value *pat = NULL;
-- 
2.43.0


From fac1eb113a6e12dbb3e994611b18c4703d1778c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:01 +0000
Subject: [PATCH 69/70] fix: SQL regexp() released cached patterns once the
 cache was turned off

---
 src/jsiSqlite.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d3635f6..d513049 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1424,11 +1424,12 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
     const char *str = (char *)sqlite3_value_text(argv[1]);
     char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2 ? (char *)sqlite3_value_text(argv[2]) : NULL);
     int rc = 0;
-    bool isNew = 0;
+    bool isNew = 0, cached = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
     if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, spat))))
         pat = (Jsi_Value*)Jsi_HashValueGet(hPtr);
+    cached = (pat != NULL);
     if (!pat) {
         if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache) {
             Jsi_LogErrorExt("Regex hash reached max size: %d", db->maxRegexCache);
@@ -1447,11 +1448,12 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
                 return;
             }
             Jsi_HashValueSet(hPtr, pat);
+            cached = 1;
         }
     }
     if (Jsi_RegExpMatch(interp, pat, str, &rc, NULL)==JSI_OK)
         sqlite3_result_int(context, rc);
-    if (!db->maxRegexCache)
+    if (!cached)
         Jsi_DecrRefCount(interp, pat);
 }
 
-- 
2.43.0


From f8ce704ceaff7077b63200b142942552f510bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:01 +0000
Subject: [PATCH 70/70] fix: removing an accessor released its function twice

---
 src/jsiObj.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 71de41a..94af33a 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -565,12 +565,8 @@ Jsi_Hash* Jsi_ObjAccessor(Jsi_Interp *interp, Jsi_Obj *obj, const char *name, bo
         hPtr = Jsi_HashEntryFind(h, name);
         if (!hPtr)
             Jsi_LogWarn("%s accessor not found for %s", isSet?"set":"get", name);
-        else {
-            callback = (Jsi_Value*)Jsi_HashValueGet(hPtr);
-            if (callback)
-                Jsi_DecrRefCount(interp, callback);
-            Jsi_HashEntryDelete(hPtr);
-        }
+        else
+            Jsi_HashEntryDelete(hPtr); // Releases the callback.
     }
     return h;
 }
-- 
2.43.0

