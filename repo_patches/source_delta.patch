From ffd2c0f87bc0463d12411868e940f3778e616c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 001/106] fix: reject .qvm headers whose section sizes overflow
 the bounds check

---
 src/vm/vm.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 88d6092..0ca92d0 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -472,9 +472,15 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
-            header.h->codeOffset + header.h->codeLength > length ||
-            header.h->dataOffset + header.h->dataLength + header.h->litLength >
-                length)
+            /* an instruction is at least one byte long */
+            header.h->instructionCount > header.h->codeLength ||
+            /* subtract instead of add: sums of header values can overflow */
+            header.h->codeOffset > length ||
+            header.h->codeLength > length - header.h->codeOffset ||
+            header.h->dataOffset > length ||
+            header.h->dataLength > length - header.h->dataOffset ||
+            header.h->litLength >
+                length - header.h->dataOffset - header.h->dataLength)
         {
             Com_Printf("Warning: %s has bad header\n", vm->name);
             return NULL;
-- 
2.43.0


From 29a49d36542536f6b56e8dbbc0341f8a571e2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 002/106] fix: do not byte swap the header inside the host's
 const bytecode image

---
 src/vm/vm.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 0ca92d0..2be119e 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -276,16 +276,20 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] bytecode Pointer to bytecode.
  * @param[in] length Number of bytes in bytecode array.
- * @return Pointer to start/header of vm bytecode. */
+ * @param[out] hostHeader Receives the header in host byte order (the bytecode
+ *                        belongs to the host and is not modified).
+ * @return Pointer to the header (hostHeader). NULL if something went wrong. */
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length);
+                                    int length, vmHeader_t* hostHeader);
 
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
+ * @param[in] bytecode Pointer to bytecode.
  * @param[in] header Header of .qvm bytecode.
  * @return 0 if everything is OK. -1 otherwise. */
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
+static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
+                                 const vmHeader_t* header);
 
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
@@ -364,6 +368,8 @@ static void VM_StackTrace(vm_t* vm, int programCounter, int programStack);
 int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
               intptr_t (*systemCalls)(vm_t*, intptr_t*))
 {
+    vmHeader_t hostHeader;
+
     if (vm == NULL)
     {
         Com_Error(VM_INVALID_POINTER, "Invalid vm pointer");
@@ -378,7 +384,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 
     Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
-    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length);
+    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &hostHeader);
     if (!header)
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
@@ -409,7 +415,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     vm->compiled = 0; /* no JIT */
     if (!vm->compiled)
     {
-        if (VM_PrepareInterpreter(vm, header) != 0)
+        if (VM_PrepareInterpreter(vm, bytecode, header) != 0)
         {
             VM_Free(vm);
             return -1;
@@ -440,14 +446,14 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 }
 
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length)
+                                    int length, vmHeader_t* hostHeader)
 {
     int dataLength;
     int i;
     const union {
         const vmHeader_t* h;
         const uint8_t*    v;
-    } header = {.v = bytecode };
+    } header = {.h = hostHeader };
 
     Com_Printf("Loading vm file %s...\n", vm->name);
 
@@ -458,14 +464,14 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
         return NULL;
     }
 
-    if (LittleLong(header.h->vmMagic) == VM_MAGIC)
+    /* byte swap the header */
+    for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
     {
-        /* byte swap the header */
-        for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
-        {
-            ((int*)header.h)[i] = LittleLong(((int*)header.h)[i]);
-        }
+        ((int*)hostHeader)[i] = LittleEndianToHost(bytecode + i * 4);
+    }
 
+    if (header.h->vmMagic == VM_MAGIC)
+    {
         /* validate */
         if (header.h->bssLength < 0 || header.h->dataLength < 0 ||
             header.h->litLength < 0 || header.h->codeLength <= 0 ||
@@ -490,7 +496,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     {
         Com_Printf("Warning: Invalid magic number in header of \"%s\". "
                    "Read: 0x%x, expected: 0x%x\n",
-                   vm->name, LittleLong(header.h->vmMagic), VM_MAGIC);
+                   vm->name, header.h->vmMagic, VM_MAGIC);
         return NULL;
     }
 
@@ -518,7 +524,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     Com_Memset(vm->dataBase, 0, vm->dataAlloc);
 
     /* copy the intialized data */
-    Com_Memcpy(vm->dataBase, header.v + header.h->dataOffset,
+    Com_Memcpy(vm->dataBase, bytecode + header.h->dataOffset,
                header.h->dataLength + header.h->litLength);
 
     /* byte swap the longs */
@@ -697,12 +703,13 @@ static int LittleEndianToHost(const uint8_t b[4])
     return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
+static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
+                                 const vmHeader_t* header)
 {
     int      op;
     int      byte_pc;
     int      int_pc;
-    uint8_t* code;
+    const uint8_t* code;
     int      instruction;
     int*     codeBase;
 
@@ -715,14 +722,14 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, (uint8_t*)header + header->codeOffset,
+    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset,
                vm->codeLength);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
     int_pc = byte_pc = 0;
     instruction      = 0;
-    code             = (uint8_t*)header + header->codeOffset;
+    code             = bytecode + header->codeOffset;
     codeBase         = (int*)vm->codeBase;
 
     /* Copy and expand instructions to words while
-- 
2.43.0


From 16e0bbbf0a34745b3337db44c80e9f4192ea3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 003/106] fix: keep the code expansion and the program counter
 inside the code segment

---
 src/vm/vm.c | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 2be119e..755a0ff 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -80,6 +80,11 @@
 /** Mask for a valid opcode (so no one can escape the sandbox) */
 #define OPCODE_TABLE_MASK (OPCODE_TABLE_SIZE - 1)
 
+/** Zero (OP_UNDEF) words behind the expanded code. More than OPCODE_TABLE_SIZE:
+ * if the bytecode forges a return address, an opcode can be executed as the
+ * operand (jump target) of a branch. */
+#define CODE_GUARD_WORDS (OPCODE_TABLE_SIZE + 2)
+
 /** Max. size of BSS section */
 #define VM_MAX_BSS_LENGTH 10485760
 
@@ -713,8 +718,13 @@ static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
     int      instruction;
     int*     codeBase;
 
+    /* The expanded code is followed by a run of OP_UNDEF (zero) words, so that
+       leaving the end of the code is always caught as a bad instruction. */
+    const size_t codeAlloc =
+        ((size_t)vm->codeLength + CODE_GUARD_WORDS) * sizeof(int);
+
     vm->codeBase = (uint8_t*)Com_malloc(
-        vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
+        codeAlloc, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
     if (!vm->codeBase)
     {
         Com_Error(VM_MALLOC_FAILED,
@@ -722,8 +732,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset,
-               vm->codeLength);
+    Com_Memset(vm->codeBase, 0, codeAlloc);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
@@ -739,14 +748,14 @@ static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
         vm->instructionPointers[instruction] = int_pc;
         instruction++;
 
-        op               = (int)code[byte_pc];
-        codeBase[int_pc] = op;
-        if (byte_pc > header->codeLength)
+        if (byte_pc >= header->codeLength)
         {
             Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
-                      "VM_PrepareInterpreter: pc > header->codeLength");
+                      "VM_PrepareInterpreter: pc >= header->codeLength");
             return -1;
         }
+        op               = (int)code[byte_pc];
+        codeBase[int_pc] = op;
 
         byte_pc++;
         int_pc++;
@@ -775,11 +784,23 @@ static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
         case OP_GTF:
         case OP_GEF:
         case OP_BLOCK_COPY:
+            if (header->codeLength - byte_pc < 4)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: operand out of range");
+                return -1;
+            }
             codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
             byte_pc += 4;
             int_pc++;
             break;
         case OP_ARG:
+            if (header->codeLength - byte_pc < 1)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: operand out of range");
+                return -1;
+            }
             codeBase[int_pc] = (int)code[byte_pc];
             byte_pc++;
             int_pc++;
@@ -826,7 +847,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
         case OP_LEF:
         case OP_GTF:
         case OP_GEF:
-            if (codeBase[int_pc] < 0 || codeBase[int_pc] > vm->instructionCount)
+            if (codeBase[int_pc] < 0 ||
+                codeBase[int_pc] >= vm->instructionCount)
             {
                 Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
                           "VM_PrepareInterpreter: Jump to invalid "
-- 
2.43.0


From af70f851681a503de96d422c36c7fb14c98a8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 004/106] fix: keep the program stack inside the VM memory in
 release builds

---
 src/vm/vm.c | 41 ++++++++++++++++++++++++++++++++++++++---
 src/vm/vm.h |  2 +-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 755a0ff..314b726 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -435,6 +435,10 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     /* the stack is implicitly at the end of the image */
     vm->programStack = vm->dataMask + 1;
     vm->stackBottom  = vm->programStack - VM_PROGRAM_STACK_SIZE;
+    if (vm->stackBottom < 0)
+    {
+        vm->stackBottom = 0; /* less memory than a full program stack */
+    }
 
 #ifdef DEBUG_VM
     Com_Printf("VM:\n");
@@ -911,6 +915,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     int      programCounter;
     int      programStack;
     int      stackOnEntry;
+    int      stackTop;
     uint8_t* image;
     int*     codeImage;
     int      v1;
@@ -937,6 +942,14 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     dataMask       = vm->dataMask;
     programCounter = 0;
     programStack -= (8 + 4 * MAX_VMMAIN_ARGS);
+    stackTop = programStack;
+
+    if (programStack < vm->stackBottom)
+    {
+        vm->lastError = VM_STACK_OVERFLOW;
+        Com_Error(vm->lastError, "VM stack overflow");
+        return -1;
+    }
 
     for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
     {
@@ -1062,7 +1075,8 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
         goto_OP_LOCAL:
             opStackOfs++;
             r1 = r0;
-            r0 = opStack[opStackOfs] = r2 + programStack;
+            r0 = opStack[opStackOfs] =
+                (int)((unsigned)r2 + (unsigned)programStack);
 
             programCounter += 1;
             DISPATCH2();
@@ -1125,6 +1139,15 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                                opStackOfs, -1 - programCounter);
                 }
 #endif
+                /* the arguments have to be inside of the VM memory */
+                if (programStack >
+                    vm->dataAlloc - 4 - 4 * MAX_VMSYSCALL_ARGS)
+                {
+                    vm->lastError = VM_STACK_ERROR;
+                    Com_Error(vm->lastError, "System call without stack frame");
+                    return -1;
+                }
+
                 /* save the stack to allow recursive VM entry */
                 vm->programStack = programStack - 4;
 #ifdef DEBUG_VM
@@ -1193,7 +1216,13 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             v1 = r2;
 
             programCounter += 1;
-            programStack -= v1;
+            programStack = (int)((unsigned)programStack - (unsigned)v1);
+            if (programStack < vm->stackBottom || programStack > stackTop)
+            {
+                vm->lastError = VM_STACK_OVERFLOW;
+                Com_Error(vm->lastError, "VM stack overflow");
+                return -1;
+            }
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             /* save old stack frame for debugging traces */
@@ -1217,7 +1246,13 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             /* remove our stack frame */
             v1 = r2;
 
-            programStack += v1;
+            programStack = (int)((unsigned)programStack + (unsigned)v1);
+            if (programStack < vm->stackBottom || programStack > stackTop)
+            {
+                vm->lastError = VM_STACK_ERROR;
+                Com_Error(vm->lastError, "VM stack error in OP_LEAVE");
+                return -1;
+            }
 
             /* grab the saved program counter */
             programCounter = *(int*)&image[programStack];
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 959e2eb..9b47ad8 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -69,7 +69,7 @@ typedef enum {
     VM_BLOCKCOPY_OUT_OF_RANGE      = -5,  /**< VM tries to escape sandbox */
     VM_PC_OUT_OF_RANGE             = -6,  /**< Program counter out of range */
     VM_JUMP_TO_INVALID_INSTRUCTION = -7,  /**< VM tries to escape sandbox */
-    VM_STACK_OVERFLOW              = -8,  /**< Only in DEBUG_VM mode */
+    VM_STACK_OVERFLOW              = -8,  /**< Program stack exhausted */
     VM_STACK_MISALIGNED            = -9,  /**< Stack not aligned (DEBUG_VM) */
     VM_OP_LOAD4_MISALIGNED         = -10, /**< Access misaligned (DEBUG_VM) */
     VM_STACK_ERROR                 = -11, /**< Stack corrupted after call */
-- 
2.43.0


From 4d82b3085bb37ea52eff8f018cfe11ba9aea4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 005/106] fix: reject memory ranges whose end overflows
 (VM_MemoryRangeValid, OP_BLOCK_COPY)

---
 src/vm/vm.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 314b726..8a40023 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -667,9 +667,10 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     {
         return -1;
     }
-    const unsigned dest     = vmAddr;
-    const unsigned dataMask = vm->dataMask;
-    if ((dest & dataMask) != dest || ((dest + len) & dataMask) != dest + len)
+    const size_t dest     = (size_t)vmAddr;
+    const size_t dataMask = (size_t)vm->dataMask;
+    /* no overflow of dest + len: compare len with the remaining bytes */
+    if (dest > dataMask || len > dataMask - dest)
     {
         Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
         return -1;
@@ -695,9 +696,9 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
 {
     unsigned int dataMask = vm->dataMask;
 
-    if ((dest & dataMask) != dest || (src & dataMask) != src ||
-        ((dest + n) & dataMask) != dest + n ||
-        ((src + n) & dataMask) != src + n)
+    /* no overflow of dest + n: compare n with the remaining bytes */
+    if (dest > dataMask || src > dataMask || n > dataMask - dest ||
+        n > dataMask - src)
     {
         Com_Error(vm->lastError = VM_BLOCKCOPY_OUT_OF_RANGE,
                   "OP_BLOCK_COPY out of range");
-- 
2.43.0


From 2eee2212322ab54ec28d077240af1bbae6672257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 006/106] fix: OP_BLOCK_COPY of overlapping blocks

---
 src/vm/vm.c | 3 ++-
 src/vm/vm.h | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8a40023..d5a6a3f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -705,7 +705,8 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
         return;
     }
 
-    Com_Memcpy(vm->dataBase + dest, vm->dataBase + src, n);
+    /* the bytecode decides about the addresses: the blocks can overlap */
+    Com_Memmove(vm->dataBase + dest, vm->dataBase + src, n);
 }
 
 static int LittleEndianToHost(const uint8_t b[4])
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 9b47ad8..2be7a6c 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -49,6 +49,9 @@
 /** Redirect memcpy() calls with this macro */
 #define Com_Memcpy memcpy
 
+/** Redirect memmove() calls with this macro */
+#define Com_Memmove memmove
+
 /** Translate from virtual machine memory to real machine memory. */
 #define VMA(x, vm) VM_ArgPtr(args[x], vm)
 
-- 
2.43.0


From 1a2d93486c503865bd88e24fb5dd184e33012daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 007/106] fix: integer division by zero or INT_MIN / -1 in the
 bytecode kills the host

---
 src/vm/vm.c | 25 +++++++++++++++++++++++--
 src/vm/vm.h |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index d5a6a3f..04a53eb 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1516,18 +1516,35 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             opStack[opStackOfs] = r1 - r0;
             DISPATCH();
         goto_OP_DIVI:
+            if (r0 == 0)
+            {
+                goto divisionByZero;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 / r0;
+            /* INT_MIN / -1 wraps like all other integer operations */
+            opStack[opStackOfs] = r0 == -1 ? (int)(0u - (unsigned)r1) : r1 / r0;
             DISPATCH();
         goto_OP_DIVU:
+            if (r0 == 0)
+            {
+                goto divisionByZero;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) / ((unsigned)r0);
             DISPATCH();
         goto_OP_MODI:
+            if (r0 == 0)
+            {
+                goto divisionByZero;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 % r0;
+            opStack[opStackOfs] = r0 == -1 ? 0 : r1 % r0;
             DISPATCH();
         goto_OP_MODU:
+            if (r0 == 0)
+            {
+                goto divisionByZero;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);
             DISPATCH();
@@ -1608,6 +1625,10 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
         }
     }
 
+divisionByZero:
+    Com_Error(vm->lastError = VM_DIVISION_BY_ZERO, "Integer division by zero");
+    return -1;
+
 done:
     vm->currentlyInterpreting = 0;
 
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 2be7a6c..9bcb45a 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -80,6 +80,7 @@ typedef enum {
     VM_MALLOC_FAILED               = -13, /**< Not enough memory */
     VM_BAD_INSTRUCTION             = -14, /**< Unknown OP code in bytecode */
     VM_NOT_LOADED                  = -15, /**< VM not loaded */
+    VM_DIVISION_BY_ZERO            = -16, /**< Integer division by zero */
 } vmErrorCode_t;
 
 /** VM alloc type. This is just an information passed to the host malloc
-- 
2.43.0


From 378d443a919d00cd39b87d6129bbe7ba77172b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 008/106] fix: undefined host behaviour of integer overflow and
 large shift counts

---
 src/vm/vm.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 04a53eb..b506c8d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -711,7 +711,8 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
 
 static int LittleEndianToHost(const uint8_t b[4])
 {
-    return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+    return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) |
+           (int)((unsigned)b[3] << 24);
 }
 
 static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
@@ -1505,15 +1506,15 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
         /*===================================================================*/
 
         goto_OP_NEGI:
-            opStack[opStackOfs] = -r0;
+            opStack[opStackOfs] = (int)(0u - (unsigned)r0);
             DISPATCH();
         goto_OP_ADD:
             opStackOfs--;
-            opStack[opStackOfs] = r1 + r0;
+            opStack[opStackOfs] = (int)((unsigned)r1 + (unsigned)r0);
             DISPATCH();
         goto_OP_SUB:
             opStackOfs--;
-            opStack[opStackOfs] = r1 - r0;
+            opStack[opStackOfs] = (int)((unsigned)r1 - (unsigned)r0);
             DISPATCH();
         goto_OP_DIVI:
             if (r0 == 0)
@@ -1550,7 +1551,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_MULI:
             opStackOfs--;
-            opStack[opStackOfs] = r1 * r0;
+            opStack[opStackOfs] = (int)((unsigned)r1 * (unsigned)r0);
             DISPATCH();
         goto_OP_MULU:
             opStackOfs--;
@@ -1573,15 +1574,15 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_LSH:
             opStackOfs--;
-            opStack[opStackOfs] = r1 << r0;
+            opStack[opStackOfs] = (int)((unsigned)r1 << (r0 & 31));
             DISPATCH();
         goto_OP_RSHI:
             opStackOfs--;
-            opStack[opStackOfs] = r1 >> r0;
+            opStack[opStackOfs] = r1 >> (r0 & 31);
             DISPATCH();
         goto_OP_RSHU:
             opStackOfs--;
-            opStack[opStackOfs] = ((unsigned)r1) >> r0;
+            opStack[opStackOfs] = ((unsigned)r1) >> (r0 & 31);
             DISPATCH();
         goto_OP_NEGF:
             ((float*)opStack)[opStackOfs] = -((float*)opStack)[opStackOfs];
-- 
2.43.0


From e277a9f80436326f50d1b2a90db14262a716f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 009/106] fix: uninitialized host stack memory is visible to
 the bytecode (OP_PUSH, OP_POP)

---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index b506c8d..944722b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -965,6 +965,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
        not corrupt anything */
+    Com_Memset(stack, 0, sizeof(stack));
     opStack    = PADP(stack, 16);
     *opStack   = 0x0000BEEF;
     opStackOfs = 0;
-- 
2.43.0


From cdad488930d14699796f6ba65526b40480d9e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 010/106] fix: restore the program stack and the running state
 after a failed VM_Call

---
 src/vm/vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 944722b..e5c08c2 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -573,9 +573,16 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     }
     va_end(ap);
 
+    /* an error leaves the interpreter from inside of nested frames: restore the
+       stack for the next call, and do not end a call that is still running */
+    const int stackOnEntry = vm->programStack;
+    const int wasRunning   = vm->currentlyInterpreting;
+
     ++vm->callLevel;
     r = VM_CallInterpreted(vm, args);
     --vm->callLevel;
+    vm->programStack          = stackOnEntry;
+    vm->currentlyInterpreting = wasRunning;
 
     return r;
 }
-- 
2.43.0


From 1f88870014027820b7dfd1f6a51605418c14b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 011/106] fix: keep the error code in vm_t::lastError after a
 failed VM_Create

---
 src/vm/vm.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e5c08c2..94dcb8e 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -287,6 +287,11 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
                                     int length, vmHeader_t* hostHeader);
 
+/** Helper function for VM_Create: Release everything that has been allocated,
+ * but keep vm->lastError for the host.
+ * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create. */
+static void VM_CreateFailed(vm_t* vm);
+
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
@@ -392,9 +397,12 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &hostHeader);
     if (!header)
     {
-        vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
-        Com_Error(vm->lastError, "Failed to load bytecode");
-        VM_Free(vm);
+        if (vm->lastError == VM_NO_ERROR)
+        {
+            vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
+        }
+        Com_Error(VM_FAILED_TO_LOAD_BYTECODE, "Failed to load bytecode");
+        VM_CreateFailed(vm);
         return -1;
     }
 
@@ -411,7 +419,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         vm->lastError = VM_MALLOC_FAILED;
         Com_Error(vm->lastError,
                   "Instr. pointer malloc failed: out of memory?");
-        VM_Free(vm);
+        VM_CreateFailed(vm);
         return -1;
     }
 
@@ -422,7 +430,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     {
         if (VM_PrepareInterpreter(vm, bytecode, header) != 0)
         {
-            VM_Free(vm);
+            VM_CreateFailed(vm);
             return -1;
         }
     }
@@ -525,7 +533,8 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     vm->dataMask  = dataLength - 1;
     if (vm->dataBase == NULL)
     {
-        Com_Error(VM_MALLOC_FAILED, "Data malloc failed: out of memory?\n");
+        vm->lastError = VM_MALLOC_FAILED;
+        Com_Error(vm->lastError, "Data malloc failed: out of memory?\n");
         return NULL;
     }
     /* make sure data section is always initialized with 0
@@ -631,6 +640,13 @@ void VM_Free(vm_t* vm)
     Com_Memset(vm, 0, sizeof(*vm));
 }
 
+static void VM_CreateFailed(vm_t* vm)
+{
+    const vmErrorCode_t error = vm->lastError;
+    VM_Free(vm);
+    vm->lastError = error; /* VM_Free clears the struct */
+}
+
 void* VM_ArgPtr(intptr_t vmAddr, vm_t* vm)
 {
     if (!vmAddr)
@@ -741,7 +757,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const uint8_t* bytecode,
         codeAlloc, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
     if (!vm->codeBase)
     {
-        Com_Error(VM_MALLOC_FAILED,
+        vm->lastError = VM_MALLOC_FAILED;
+        Com_Error(vm->lastError,
                   "Data pointer malloc failed: out of memory?");
         return -1;
     }
-- 
2.43.0


From 25ee2e48075ac6b1e2343fbc874f80654211191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 012/106] fix: DEBUG_VM symbol loader reads past the .map file
 and frees malloc memory with Com_free

---
 src/vm/vm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 94dcb8e..241b792 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1737,8 +1737,8 @@ static vmSymbol_t* VM_ValueToFunctionSymbol(vm_t* vm, int value)
 
 static int ParseHex(const char* text)
 {
-    int value;
-    int c;
+    unsigned value;
+    int      c;
 
     value = 0;
     while ((c = *text++) != 0)
@@ -1795,7 +1795,7 @@ uint8_t* loadImage(const char* filepath, int* size)
     }
     rewind(f);
 
-    image = (uint8_t*)malloc(sz);
+    image = (uint8_t*)Com_malloc((size_t)sz + 1, NULL, VM_ALLOC_DEBUG);
     if (!image)
     {
         fclose(f);
@@ -1804,10 +1804,11 @@ uint8_t* loadImage(const char* filepath, int* size)
 
     if (fread(image, 1, sz, f) != (size_t)sz)
     {
-        free(image);
+        Com_free(image, NULL, VM_ALLOC_DEBUG);
         fclose(f);
         return NULL;
     }
+    image[sz] = 0; /* the parser stops at the end of the string */
 
     fclose(f);
     *size = sz;
-- 
2.43.0


From 6ff7674bb93357401f5835b41006abbc3f094625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 013/106] fix: division by zero in VM_VmProfile_f without any
 recorded call

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 241b792..c586108 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2114,7 +2114,7 @@ void VM_VmProfile_f(const vm_t* vm)
 
         sym = sorted[i];
 
-        perc = (int)(100 * (float)sym->profileCount / total);
+        perc = total > 0.0f ? (int)(100 * (float)sym->profileCount / total) : 0;
         Com_Printf("%2i%% %9i %s\n", perc, sym->profileCount, sym->symName);
         sym->profileCount = 0;
     }
-- 
2.43.0


From 951604b46ca72b69d67a64c1e93693374ba80501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 014/106] fix: undefined host behaviour of OP_CVFI for values
 that do not fit

---
 src/vm/vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c586108..ef7820f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -369,7 +369,12 @@ static void VM_StackTrace(vm_t* vm, int programCounter, int programStack);
 #define PAD(base, alignment) (((base) + (alignment)-1) & ~((alignment)-1))
 #define PADLEN(base, alignment) (PAD((base), (alignment)) - (base))
 #define PADP(base, alignment) ((void*)PAD((intptr_t)(base), (alignment)))
-#define Q_ftol(v) ((long)(v))
+/** Float to integer. Casting a value that the integer type can not hold (this
+ * includes NaN) is undefined in C, and long has 32 bits on some hosts. */
+#define Q_ftol(v)                                                              \
+    ((v) >= -9223372036854775808.0f && (v) < 9223372036854775808.0f            \
+         ? (int)(int64_t)(v)                                                   \
+         : 0)
 
 /******************************************************************************
  * FUNCTION BODIES
-- 
2.43.0


From a22930df078fe22df42cdaa10822ea7089d56ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 015/106] fix: the return address of a system call is not
 validated

---
 src/vm/vm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index ef7820f..3565d91 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1216,6 +1216,14 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 opStackOfs++;
                 opStack[opStackOfs] = r;
                 programCounter      = *(int*)&image[programStack];
+                /* the VM memory could have been changed by the system call */
+                if ((unsigned)programCounter >= (unsigned)vm->codeLength)
+                {
+                    Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                              "VM program counter out of range after system "
+                              "call");
+                    return -1;
+                }
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
-- 
2.43.0


From eca4d00e86885c7fc69a90dfbb5a519d2434fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 016/106] fix: q3asm reports success for a multiple of 256
 errors

---
 q3asm/q3asm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 00982df..25a3b6b 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1778,5 +1778,6 @@ int main(int argc, char** argv)
     end = I_FloatTime();
     report("%5.0f seconds elapsed\n", end - start);
 
-    return errorCount;
+    // the count itself would be truncated to 8 bits, 256 errors are no success
+    return errorCount ? 1 : 0;
 }
-- 
2.43.0


From 2be2e8b8b038604571e48f19b6ac49ae6341ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 017/106] fix: q3asm loops forever on a line that is too long

---
 q3asm/q3asm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 25a3b6b..2cae489 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -691,8 +691,8 @@ static char* ExtractLine(char* data)
 
     if ((p - q) >= MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH");
-        return data;
+        CodeError("MAX_LINE_LENGTH\n");
+        return *p ? p + 1 : p; /* skip the line */
     }
 
     memcpy(lineBuffer, data, (p - data));
-- 
2.43.0


From 849f6aca2fb06fdbd76ef895259dc2745682856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 018/106] fix: q3asm uses no or a stale segment before the
 first segment directive

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 2cae489..6e05964 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1549,6 +1549,7 @@ static void Assemble(void)
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
+        currentSegment   = &segment[CODESEG];
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From d713e04d94e313af86ca6f732f533b9104d08b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 019/106] fix: q3asm crashes on initialized data without a
 label

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 6e05964..7f59853 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -854,7 +854,7 @@ static void HackToSegment(segmentName_t seg)
     }
 
     currentSegment = &segment[seg];
-    if (passNumber == 0)
+    if (passNumber == 0 && lastSymbol)
     {
         lastSymbol->segment = currentSegment;
         lastSymbol->value   = currentSegment->imageUsed;
-- 
2.43.0


From 57d5fe9da802df5a7e47f95b928b60b6e0073a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 020/106] fix: q3asm accesses memory outside of its segments
 after bad skip and align values

---
 q3asm/q3asm.c | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 7f59853..efd39fe 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -540,6 +540,28 @@ static void EmitInt(segment_t* seg, int v)
     seg->imageUsed += 4;
 }
 
+/*
+============
+SkipBytes
+
+Only the bss segment may become larger than the image buffer
+============
+*/
+static void SkipBytes(segment_t* seg, int count)
+{
+    int limit = VM_MAX_IMAGE_SIZE;
+
+    if (seg == &segment[BSSSEG])
+    {
+        limit = 0x40000000;
+    }
+    if (count > limit - seg->imageUsed)
+    {
+        Error("VM_MAX_IMAGE_SIZE");
+    }
+    seg->imageUsed += count;
+}
+
 /*
 ============
 DefineSymbol
@@ -1145,8 +1167,12 @@ ASM(ALIGN)
     {
         STAT("ALIGN");
         v = ParseValue();
-        currentSegment->imageUsed =
-            (currentSegment->imageUsed + v - 1) & ~(v - 1);
+        if (v <= 0 || (v & (v - 1)))
+        {
+            CodeError("Bad alignment: %s\n", token);
+            return 1;
+        }
+        SkipBytes(currentSegment, -currentSegment->imageUsed & (v - 1));
         return 1;
     }
     return 0;
@@ -1159,7 +1185,12 @@ ASM(SKIP)
     {
         STAT("SKIP");
         v = ParseValue();
-        currentSegment->imageUsed += v;
+        if (v < 0)
+        {
+            CodeError("Bad skip: %s\n", token);
+            return 1;
+        }
+        SkipBytes(currentSegment, v);
         return 1;
     }
     return 0;
-- 
2.43.0


From 3bd6a9f5e67b55183f1d482d4bf981a2a88ad14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 021/106] fix: q3asm sorts symbols wrongly if the difference of
 their values overflows

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index efd39fe..bcaef18 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -372,7 +372,7 @@ static int symlist_cmp(const void* e1, const void* e2)
     a = *(const symbol_t**)e1;
     b = *(const symbol_t**)e2;
     // crumb("Symbol comparison (1) %d  to  (2) %d\n", a->value, b->value);
-    return (a->value - b->value);
+    return (a->value > b->value) - (a->value < b->value);
 }
 
 /*
-- 
2.43.0


From 33674a781fe789ff502c8d096e4201f92b779a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 022/106] fix: q3asm uses a negative bucket index for the hash
 value 0x80000000

---
 q3asm/q3asm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index bcaef18..ca709d0 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -259,7 +259,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 {
     hashchain_t *hc, **hb;
 
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned)hashvalue % H->buckets);
     hb        = &(H->table[hashvalue]);
     if (*hb == 0)
     {
@@ -287,7 +287,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 
 static hashchain_t* hashtable_get(hashtable_t* H, int hashvalue)
 {
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned)hashvalue % H->buckets);
     return (H->table[hashvalue]);
 }
 
@@ -343,7 +343,7 @@ static int hashtable_symbol_exists(hashtable_t* H, int hash, char* sym)
     hashchain_t* hc;
     symbol_t*    s;
 
-    hash = (abs(hash) % H->buckets);
+    hash = ((unsigned)hash % H->buckets);
     hc   = H->table[hash];
     if (hc == 0)
     {
-- 
2.43.0


From e137966330f34a88b57fa9d64db644f123545871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 023/106] fix: q3asm crashes on a bad number of hash buckets

---
 q3asm/q3asm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index ca709d0..8ea077a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -242,6 +242,10 @@ static void hashtable_init(hashtable_t* H, int buckets)
 {
     H->buckets = buckets;
     H->table   = calloc(H->buckets, sizeof(*(H->table)));
+    if (!H->table)
+    {
+        Error("Out of memory for %i buckets", buckets);
+    }
 }
 
 static hashtable_t* hashtable_new(int buckets)
@@ -1748,6 +1752,10 @@ int main(int argc, char** argv)
             }
             i++;
             symtablelen = atoiNoCap(argv[i]);
+            if (symtablelen <= 0)
+            {
+                Error("Bad number of buckets: %s", argv[i]);
+            }
             continue;
         }
 
-- 
2.43.0


From 90a7c0d288181607aef94b181ef19c01d95ad3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 024/106] fix: q3asm overflows its buffers for long, empty or
 too many file names

---
 q3asm/q3asm.c | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 8ea077a..c1e37f9 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1627,6 +1627,42 @@ static void Assemble(void)
     }
 }
 
+/*
+=============
+CheckPath
+
+File names need space for an extension
+=============
+*/
+static const char* CheckPath(const char* path)
+{
+    if (!path[0])
+    {
+        Error("Empty file name");
+    }
+    if (strlen(path) >= MAX_OS_PATH - 8)
+    {
+        Error("File name too long: %s", path);
+    }
+    return path;
+}
+
+/*
+=============
+AddAsmFile
+
+=============
+*/
+static void AddAsmFile(const char* path)
+{
+    if (numAsmFiles >= MAX_ASM_FILES)
+    {
+        Error("More than %i files", MAX_ASM_FILES);
+    }
+    asmFileNames[numAsmFiles] = copystring(CheckPath(path));
+    numAsmFiles++;
+}
+
 /*
 =============
 ParseOptionFile
@@ -1638,7 +1674,7 @@ static void ParseOptionFile(const char* filename)
     char  expanded[MAX_OS_PATH];
     char *text, *text_p;
 
-    strcpy(expanded, filename);
+    strcpy(expanded, CheckPath(filename));
     DefaultExtension(expanded, ".q3asm");
     LoadFile(expanded, (void**)&text);
     if (!text)
@@ -1656,13 +1692,12 @@ static void ParseOptionFile(const char* filename)
             text_p = COM_Parse(text_p);
             if (text_p)
             {
-                strcpy(outputFilename, com_token);
+                strcpy(outputFilename, CheckPath(com_token));
             }
             continue;
         }
 
-        asmFileNames[numAsmFiles] = copystring(com_token);
-        numAsmFiles++;
+        AddAsmFile(com_token);
     }
 }
 
@@ -1728,7 +1763,7 @@ int main(int argc, char** argv)
             }
             /* Timbo of Tremulous pointed out -o not working; stock ID q3asm
              * folded in the change. Yay. */
-            strcpy(outputFilename, argv[i + 1]);
+            strcpy(outputFilename, CheckPath(argv[i + 1]));
             i++;
             continue;
         }
@@ -1789,8 +1824,7 @@ int main(int argc, char** argv)
     // the rest of the command line args are asm files
     for (; i < argc; i++)
     {
-        asmFileNames[numAsmFiles] = copystring(argv[i]);
-        numAsmFiles++;
+        AddAsmFile(argv[i]);
     }
     // In some case it Segfault without this check
     if (numAsmFiles == 0)
-- 
2.43.0


From 8801fc4f55fb2b2225261c41865fb2b5d655e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 025/106] fix: q3asm option file parser writes and reads past
 its buffers

---
 q3asm/cmdlib.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 592f89e..c3a1265 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -496,6 +496,10 @@ skipwhite:
                 com_token[len] = 0;
                 return data;
             }
+            if (c == 0 || len >= (int)sizeof(com_token) - 1)
+            {
+                Error("Unterminated or too long string");
+            }
             com_token[len] = c;
             len++;
         } while (1);
@@ -513,6 +517,10 @@ skipwhite:
     // parse a regular word
     do
     {
+        if (len >= (int)sizeof(com_token) - 1)
+        {
+            Error("Token too long");
+        }
         com_token[len] = c;
         data++;
         len++;
-- 
2.43.0


From 7c0ff1ae3d4acbec5b48482965a57b62ef72df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 026/106] fix: q3asm writes before its buffer if an input is a
 directory

---
 q3asm/cmdlib.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index c3a1265..86bc698 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -718,9 +718,10 @@ int LoadFile(const char* filename, void** bufferptr)
     int   length;
     void* buffer;
 
-    f                       = SafeOpenRead(filename);
-    length                  = Q_filelength(f);
-    buffer                  = malloc(length + 1);
+    f      = SafeOpenRead(filename);
+    length = Q_filelength(f);
+    if (length < 0 || !(buffer = malloc((size_t)length + 1)))
+        Error("Error reading %s", filename);
     ((char*)buffer)[length] = 0;
     SafeRead(f, buffer, length);
     fclose(f);
-- 
2.43.0


From d6d6a0c42e248711d70de76e4ffbee1135c7e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 027/106] fix: q3asm ignores errors when it flushes its output
 files

---
 q3asm/q3asm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index c1e37f9..da2910a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1469,7 +1469,11 @@ static void WriteMapFile(void)
             fprintf(f, "%i %8x %s\n", seg, s->value, s->name);
         }
     }
-    fclose(f);
+    seg = ferror(f);
+    if (fclose(f) || seg)
+    {
+        Error("File write failure");
+    }
 }
 
 /*
@@ -1546,7 +1550,11 @@ static void WriteVmFile(void)
         SafeWrite(f, &segment[JTRGSEG].image, segment[JTRGSEG].imageUsed);
     }
 
-    fclose(f);
+    if (fclose(f))
+    {
+        remove(imageName);
+        Error("File write failure");
+    }
 }
 
 /*
-- 
2.43.0


From 39fcb60637565381aef886138afc71fc171bf1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 028/106] fix: q3asm lists the stack symbols in whatever
 segment was used last

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index da2910a..c47864b 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1621,6 +1621,7 @@ static void Assemble(void)
     }
 
     // reserve the stack in bss
+    currentSegment = &segment[BSSSEG];
     DefineSymbol("_stackStart", segment[BSSSEG].imageUsed);
     segment[BSSSEG].imageUsed += stackSize;
     DefineSymbol("_stackEnd", segment[BSSSEG].imageUsed);
-- 
2.43.0


From a7cf0db6597801467dfe3cdb4c9e50290adfb2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 029/106] fix: signed overflow in q3asm expressions and frame
 sizes

---
 q3asm/q3asm.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index c47864b..941e47f 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -668,7 +668,7 @@ static int LookupSymbol(char* sym)
         s = (symbol_t*)hc->data; /* ugly typecasting, but it's fast! */
         if ((hash == s->hash) && !strcmp(sym, s->name))
         {
-            return s->segment->segmentBase + s->value;
+            return (int)((unsigned)s->segment->segmentBase + s->value);
         }
     }
 
@@ -843,10 +843,10 @@ static int ParseExpression(void)
         switch (token[i])
         {
         case '+':
-            v += atoiNoCap(sym);
+            v = (int)((unsigned)v + (unsigned)atoiNoCap(sym));
             break;
         case '-':
-            v -= atoiNoCap(sym);
+            v = (int)((unsigned)v - (unsigned)atoiNoCap(sym));
             break;
         }
 
@@ -969,7 +969,7 @@ ASM(ADDRF)
         instructionCount++;
         Parse();
         v = ParseExpression();
-        v = 16 + currentArgs + currentLocals + v;
+        v = (int)(16u + currentArgs + currentLocals + v);
         EmitByte(&segment[CODESEG], OP_LOCAL);
         EmitInt(&segment[CODESEG], v);
         return 1;
@@ -987,7 +987,7 @@ ASM(ADDRL)
         instructionCount++;
         Parse();
         v = ParseExpression();
-        v = 8 + currentArgs + v;
+        v = (int)(8u + currentArgs + v);
         EmitByte(&segment[CODESEG], OP_LOCAL);
         EmitInt(&segment[CODESEG], v);
         return 1;
@@ -1007,13 +1007,15 @@ ASM(PROC)
         DefineSymbol(token, instructionCount); // segment[CODESEG].imageUsed );
 
         currentLocals = ParseValue(); // locals
-        currentLocals = (currentLocals + 3) & ~3;
+        currentLocals = (currentLocals + 3u) & ~3u;
         currentArgs   = ParseValue(); // arg marshalling
-        currentArgs   = (currentArgs + 3) & ~3;
+        currentArgs   = (currentArgs + 3u) & ~3u;
 
-        if (8 + currentLocals + currentArgs >= 32767)
+        if (currentLocals < 0 || currentLocals >= 32767 || currentArgs < 0 ||
+            currentArgs >= 32767 || 8 + currentLocals + currentArgs >= 32767)
         {
             CodeError("Locals > 32k in %s\n", name);
+            currentLocals = currentArgs = 0;
         }
 
         instructionCount++;
@@ -1337,7 +1339,7 @@ static void AssembleLine(void)
                 // be incorrect if other initialized chars follow.
                 if (opcode == OP_BLOCK_COPY)
                 {
-                    expression = (expression + 3) & ~3;
+                    expression = (expression + 3u) & ~3u;
                 }
 
                 EmitByte(&segment[CODESEG], opcode);
-- 
2.43.0


From 4ef61103a9d7412ce4bcfcdef5c3f690cd1c5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 030/106] fix: q3asm tears initialized structs with char and
 int members apart

---
 q3asm/q3asm.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 941e47f..0713f36 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -204,6 +204,9 @@ char token[MAX_LINE_LENGTH];
 
 int instructionCount;
 
+int labelOffset; // where the most recent object starts in currentSegment
+int labelAlign = 1; // alignment of the most recent object
+
 typedef struct
 {
     char* name;
@@ -866,7 +869,8 @@ segment, but switch jump tables are emitted in the lit segment and
 initialized strng variables are put in the data segment.
 
 I can change segments here, but I also need to fixup the
-label that was just defined
+label that was just defined. The rest of an object (a struct
+with char and int members) has to follow its first value.
 
 Note that the lit segment is read-write in the VM, so strings
 aren't read only as in some architectures.
@@ -878,8 +882,15 @@ static void HackToSegment(segmentName_t seg)
     {
         return;
     }
+    if (currentSegment != &segment[CODESEG] &&
+        currentSegment->imageUsed != labelOffset)
+    {
+        return;
+    }
 
     currentSegment = &segment[seg];
+    SkipBytes(currentSegment, -currentSegment->imageUsed & (labelAlign - 1));
+    labelOffset = currentSegment->imageUsed;
     if (passNumber == 0 && lastSymbol)
     {
         lastSymbol->segment = currentSegment;
@@ -1179,6 +1190,7 @@ ASM(ALIGN)
             return 1;
         }
         SkipBytes(currentSegment, -currentSegment->imageUsed & (v - 1));
+        labelAlign = v;
         return 1;
     }
     return 0;
@@ -1255,6 +1267,7 @@ ASM(LABEL)
         else
         {
             DefineSymbol(token, currentSegment->imageUsed);
+            labelOffset = currentSegment->imageUsed;
         }
         return 1;
     }
@@ -1595,6 +1608,8 @@ static void Assemble(void)
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
         currentSegment   = &segment[CODESEG];
+        labelOffset      = 0;
+        labelAlign       = 1;
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From 04171c5c6f6c109cc60d9d3d0cbd8a7091a67e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 031/106] fix: lcc does not truncate values that are cast to
 unsigned char or unsigned short

---
 lcc/src/bytecode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 871056a..f41c386 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -113,6 +113,10 @@ static void dumptree(Node p) {
 		assert(p->syms[0]);
 		dumptree(p->kids[0]);
 		print("%s %d\n", opname(p->op), p->syms[0]->u.c.v.i);
+		/* q3asm has no instruction for this, signed values are
+		   truncated by the sign extension to int */
+		if (generic(p->op) == CVU && opsize(p->op) < 4)
+			print("CNSTU4 %d\nBANDU4\n", opsize(p->op) == 1 ? 0xff : 0xffff);
 		return;
 	case ARG: case BCOM: case NEG: case INDIR: case JUMP: case RET:
 		assert(p->kids[0]);
-- 
2.43.0


From 74b9587cc595aea1bde25a7fd2b31927d333bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 032/106] fix: lcc: bit-field initializers are in the byte
 order of the VM

---
 lcc/src/bytecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index f41c386..ac1ff35 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -335,7 +335,7 @@ Interface bytecodeIR = {
 	{4, 4, 0},	/* long double */		// JDC: don't ever emit 8 byte double code
 	{4, 4, 0},	/* T* */
 	{0, 4, 0},	/* struct */
-	0,		/* little_endian */
+	1,		/* little_endian */
 	0,		/* mulops_calls */
 	0,		/* wants_callb */
 	0,		/* wants_argb */
-- 
2.43.0


From ef5e561ea70134c5784e0c4f765fde92f3d0f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 033/106] fix: lcc: negative enumeration constants are negative
 in constant expressions

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 96eec21..93258f3 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -391,7 +391,7 @@ static Tree primary(void) {
 		   if (xref)
 		   	use(tsym, src);
 		   if (tsym->sclass == ENUM)
-		   	p = consttree(tsym->u.value, inttype);
+		   	p = cnsttree(inttype, (long)tsym->u.value);
 		   else {
 		   	if (tsym->sclass == TYPEDEF)
 		   		error("illegal use of type name `%s'\n", tsym->name);
-- 
2.43.0


From 4582eb9662dcda063ab821f83cc5a243f9c2921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 034/106] fix: lcc: a signed bit-field stays signed when it is
 qualified or converted to long

---
 lcc/src/dag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 420cbe7..f418504 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -349,7 +349,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      else
 		      	p = node(tp->op == INDIR+B ? tp->op : op, l, NULL, NULL); } break;
 	case FIELD: { Tree q = tp->kids[0];
-		      if (tp->type == inttype) {
+		      if (unqual(tp->u.field->type) == inttype) {
 		      	long n = fieldleft(tp->u.field);
 		      	q = shtree(RSH,
 		      		shtree(LSH, q, cnsttree(inttype, n)),
-- 
2.43.0


From 1338c2452117a899ed4c7a3000f24b7425db151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 035/106] fix: lcc: 0.0 and -0.0 are different constants

---
 lcc/src/sym.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/sym.c b/lcc/src/sym.c
index 2a1cfeb..a6f424d 100644
--- a/lcc/src/sym.c
+++ b/lcc/src/sym.c
@@ -171,7 +171,8 @@ Symbol constant(Type ty, Value v) {
 			switch (ty->op) {
 			case INT:      if (equalp(i)) return &p->sym; break;
 			case UNSIGNED: if (equalp(u)) return &p->sym; break;
-			case FLOAT:    if (equalp(d)) return &p->sym; break;
+			case FLOAT:    /* 0.0 and -0.0 are two constants */
+			               if (memcmp(&v.d, &p->sym.u.c.v.d, sizeof v.d) == 0) return &p->sym; break;
 			case FUNCTION: if (equalp(g)) return &p->sym; break;
 			case ARRAY:
 			case POINTER:  if (equalp(p)) return &p->sym; break;
-- 
2.43.0


From 6d1b9d731bbdf7c8647dd715d42229256c76cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 036/106] fix: q3asm: a comment may be longer than
 MAX_LINE_LENGTH (lcc -g quotes whole source lines)

---
 q3asm/q3asm.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 0713f36..2670716 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -702,6 +702,7 @@ static char* ExtractLine(char* data)
     */
     /* Hand-optimized by PhaethonH */
     char *p, *q;
+    int   len;
 
     currentFileLine++;
 
@@ -718,14 +719,26 @@ static char* ExtractLine(char* data)
     for (; !((*p == 0) || (*p == '\n')); p++) /* nop */
         ;
 
-    if ((p - q) >= MAX_LINE_LENGTH)
+    len = p - q;
+    if (len >= MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH\n");
-        return *p ? p + 1 : p; /* skip the line */
+        /* a comment may be longer (lcc quotes whole source lines) */
+        for (len = 0; len < MAX_LINE_LENGTH; len++)
+        {
+            if (q[len] == ';' && (len == 0 || q[len - 1] <= ' '))
+            {
+                break;
+            }
+        }
+        if (len == MAX_LINE_LENGTH)
+        {
+            CodeError("MAX_LINE_LENGTH\n");
+            return *p ? p + 1 : p; /* skip the line */
+        }
     }
 
-    memcpy(lineBuffer, data, (p - data));
-    lineBuffer[(p - data)] = 0;
+    memcpy(lineBuffer, data, len);
+    lineBuffer[len] = 0;
     p += (*p == '\n') ? 1 : 0; /* Skip over final newline. */
     return p;
 }
-- 
2.43.0


From ba5444cf613dca38a5a26abed679884283f30bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 037/106] fix: lcc: initialization of a char array overwrites
 the variable behind it

---
 lcc/src/bytecode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index ac1ff35..83f50dc 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -219,10 +219,14 @@ static void I(import)(Symbol p) {
 }
 
 static void I(local)(Symbol p) {
-	offset = roundup(offset, p->type->align);
+	// q3asm rounds block copies up to whole words, so that an array that is
+	// initialized by one must not share its words with other variables
+	int align = isarray(p->type) ? roundup(p->type->align, 4) : p->type->align;
+
+	offset = roundup(offset, align);
 	p->x.name = stringf("%d", offset);
 	p->x.offset = offset;
-	offset += p->type->size;
+	offset += roundup(p->type->size, align);
 }
 
 static void I(progbeg)(int argc, char *argv[]) {}
-- 
2.43.0


From 8391153b870aa4d3129720c71fadb4e3bce8ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 038/106] fix: lcc hangs on undeclared identifiers in global
 initializers

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 93258f3..a590bfe 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -355,7 +355,7 @@ static Tree primary(void) {
 		   p = idtree(tsym->u.c.loc); break;
 	case ID:   if (tsym == NULL)
 		   	{
-				Symbol p = install(token, &identifiers, level, FUNC);
+				Symbol p = install(token, &identifiers, level, level < LOCAL ? PERM : FUNC);
 				p->src = src;
 				if (getchr() == '(') {
 					Symbol q = lookup(token, externals);
-- 
2.43.0


From 3260ef261bfafc39de7be443792ced7bc1c1cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 039/106] fix: lcc crashes on compound assignments that fold to
 a constant

---
 lcc/src/simp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index ea26ab6..44dfa3f 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -46,7 +46,7 @@
 #define geu(L,R,V) \
 	if (R->op == CNST+U && R->u.v.u == 0) do { \
 		warning("result of unsigned comparison is constant\n"); \
-		return tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)
+		return tree(RIGHT, inttype, L, cnsttree(inttype, (long)(V))); } while(0)
 #define idempotent(OP) if (l->op == OP) return l->kids[0]
 
 int needconst;
@@ -271,14 +271,14 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			commute(r,l);
 			identity(r,l,U,u,ones(8*ty->size));
 			if (r->op == CNST+U && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0UL));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0UL));
 			break;
 		case BAND+I:
 			foldcnst(I,i,&);
 			commute(r,l);
 			identity(r,l,I,i,ones(8*ty->size));
 			if (r->op == CNST+I && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			break;
 
 		case MUL+U:
@@ -464,7 +464,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			break;
 		case MOD+I:
 			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
-- 
2.43.0


From 2c9e48c331c1a2325bffc58aa082219823a2aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 040/106] fix: lcc uses uninitialized temporaries after && or
 || within an operand of && or ||

---
 lcc/src/dag.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index f418504..fffdfa5 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -138,7 +138,10 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      if (tp->u.sym)
 		      	addlocal(tp->u.sym);
 		      flab = genlabel(2);
-		      listnodes(tp->kids[0], 0, flab);
+		      { int save = depth;
+		        depth = 0;	/* operands to the left are evaluated later */
+		        listnodes(tp->kids[0], 0, flab);
+		        depth = save; }
 		      assert(q && q->op == RIGHT);
 		      reset();
 		      listnodes(q->kids[0], 0, 0);
-- 
2.43.0


From a1ca7f8b79a2167d9c47836b4ef281c51c0e6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 041/106] fix: lcc folds shifts into the sign bit to a positive
 constant

---
 lcc/src/simp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 44dfa3f..a19b95c 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -437,7 +437,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			if (l->op == CNST+I && r->op == CNST+I
 			&& r->u.v.i >= 0 && r->u.v.i < 8*l->type->size
 			&& muli(l->u.v.i, 1<<r->u.v.i, ty->u.sym->u.limits.min.i, ty->u.sym->u.limits.max.i, needconst))
-				return cnsttree(ty, (long)(l->u.v.i<<r->u.v.i));
+				return cnsttree(ty, (long)extend((l->u.v.i<<r->u.v.i)&ones(8*ty->size), ty));
 			if (r->op == CNST+I && (r->u.v.i >= 8*ty->size || r->u.v.i < 0)) {
 				warning("shifting an `%t' by %d bits is undefined\n", ty, r->u.v.i);
 				break;
-- 
2.43.0


From 151a7722f2cc00b46d404d10396aa31d55abe948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 042/106] fix: lcc crashes when it generates code for trees of
 an invalid program

---
 lcc/src/dag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index fffdfa5..1ef5948 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -103,7 +103,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 	int op;
 
 	assert(tlab || flab || (tlab == 0 && flab == 0));
-	if (tp == NULL)
+	if (tp == NULL || errcnt > 0)	/* trees may be malformed after an error */
 		return NULL;
 	if (tp->node)
 		return tp->node;
-- 
2.43.0


From 0268f169638caccc9248455ef52f93e321521c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 043/106] fix: lcc divides by the size of an incomplete array
 element

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index a590bfe..4a2cf43 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -647,7 +647,7 @@ Tree field(Tree p, const char *name) {
 				ty = qual(CONST, ty);
 			if (isvolatile(ty1) && !isvolatile(ty))
 				ty = qual(VOLATILE, ty);
-			ty = array(ty, q->type->size/ty->size, q->type->align);
+			ty = array(ty, ty->size ? q->type->size/ty->size : 0, q->type->align);
 		} else {
 			ty = q->type;
 			if (isconst(ty1) && !isconst(ty))
-- 
2.43.0


From 97065e30a7beda6a47f3f98f16cd162af1ae9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 044/106] fix: lcc crashes or accepts objects redeclaring an
 enumeration constant or typedef

---
 lcc/src/decl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 132241e..ab170d6 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -211,8 +211,12 @@ static Symbol dclglobal(int sclass, char *id, Type ty, Coordinate *pos) {
 		sclass = AUTO;
 	}
 	p = lookup(id, identifiers);
-	if (p && p->scope == GLOBAL) {
-		if (p->sclass != TYPEDEF && eqtype(ty, p->type, 1))
+	if (p && p->scope == GLOBAL
+	&& (p->sclass == TYPEDEF || p->sclass == ENUM)) {
+		error("redeclaration of `%s' previously declared at %w\n", p->name, &p->src);
+		p = NULL;	/* neither an object nor a function */
+	} else if (p && p->scope == GLOBAL) {
+		if (eqtype(ty, p->type, 1))
 			ty = compose(ty, p->type);
 		else
 			error("redeclaration of `%s' previously declared at %w\n", p->name, &p->src);
-- 
2.43.0


From 8237a6c8e1132b884dcac32fcedff364da53db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 045/106] fix: lcc crashes when a struct without named members
 is initialized

---
 lcc/src/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 2f015b4..0e76622 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -218,7 +218,8 @@ Type initializer(Type ty, int lev) {
 		deallocate(STMT);
 		needconst--;
 	}
-	if ((isunion(ty) || isstruct(ty)) && ty->size == 0) {
+	if ((isunion(ty) || isstruct(ty))
+	&& (ty->size == 0 || ty->u.sym->u.s.flist == NULL)) {
 		static char follow[] = { CHAR, STATIC, 0 };
 		error("cannot initialize undefined `%t'\n", ty);
 		skipto(';', follow);
-- 
2.43.0


From b4266083f326e73b34993e318c15741c2e762602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 046/106] fix: lcc fails an assertion after a duplicate label

---
 lcc/src/stmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 9c3bdbe..55bbca0 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -252,9 +252,9 @@ static void stmtlabel(void) {
 	}
 	if (p->defined)
 		error("redefinition of label `%s' previously defined at %w\n", p->name, &p->src);
-
+	else
+		definelab(p->u.l.label);
 	p->defined = 1;
-	definelab(p->u.l.label);
 	t = gettok();
 	expect(':');
 }
-- 
2.43.0


From cf46efa9e8cd77788b6b88cb4f2706fdbbf05a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 047/106] fix: lcc crashes when a type name is used as an
 operand

---
 lcc/src/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 4a2cf43..a8d791d 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -393,9 +393,11 @@ static Tree primary(void) {
 		   if (tsym->sclass == ENUM)
 		   	p = cnsttree(inttype, (long)tsym->u.value);
 		   else {
-		   	if (tsym->sclass == TYPEDEF)
+		   	if (tsym->sclass == TYPEDEF) {
 		   		error("illegal use of type name `%s'\n", tsym->name);
-		   	p = idtree(tsym);
+		   		p = cnsttree(inttype, 0L);
+		   	} else
+		   		p = idtree(tsym);
 		   } break;
 	case FIRSTARG:
 		if (level > PARAM && cfunc && cfunc->u.f.callee[0])
-- 
2.43.0


From 75c0e2ee83d77505c94559d26c0fa9591be4fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 048/106] fix: lcc crashes after the call of an undeclared
 function in a global initializer

---
 lcc/src/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index a8d791d..456b276 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -374,6 +374,8 @@ static Tree primary(void) {
 						(*IR->defsymbol)(q);
 					}
 					p->u.alias = q;
+					if (p->scope == GLOBAL)
+						(*IR->defsymbol)(p);
 				} else {
 					error("undeclared identifier `%s'\n", p->name);
 					p->sclass = AUTO;
-- 
2.43.0


From e071f40ab9de02eab21c07c4e0421d808ba2ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 049/106] fix: lcc fails an assertion when a member of a
 conditional expression is used

---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index d59c31b..76a40fe 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -400,6 +400,8 @@ Tree addrof(Tree p) {
 		case COND: {
 			Symbol t1 = q->u.sym;
 			q->u.sym = 0;
+			if (t1->scope >= LOCAL)
+				addlocal(t1);	/* dag.c does not see t1 any more */
 			q = idtree(t1);
 			/* fall through */
 			}
-- 
2.43.0


From 87109be71c0bf755a187872c92528bb5bded2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 050/106] fix: lcc: a remainder by 1 and unsigned comparisons
 with 0 are constant expressions

---
 lcc/src/simp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index a19b95c..3ac56f0 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -46,7 +46,8 @@
 #define geu(L,R,V) \
 	if (R->op == CNST+U && R->u.v.u == 0) do { \
 		warning("result of unsigned comparison is constant\n"); \
-		return tree(RIGHT, inttype, L, cnsttree(inttype, (long)(V))); } while(0)
+		if (L->op != CNST+U) \
+			return tree(RIGHT, inttype, L, cnsttree(inttype, (long)(V))); } while(0)
 #define idempotent(OP) if (l->op == OP) return l->kids[0]
 
 int needconst;
@@ -463,7 +464,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 				return eqtree(NE, r, l);
 			break;
 		case MOD+I:
-			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
+			if (r->op == CNST+I && r->u.v.i == 1 && l->op != CNST+I)	/* l%1 => (l,0) */
 				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
-- 
2.43.0


From e8e956f78094b4f88bebee5058c2ca977337800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 051/106] fix: q3cpp: text without a newline at the end of a
 file runs into the following #line

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/cpplex.c | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index ddd7502..7bfd502 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -61,6 +61,7 @@ typedef struct source {
 	uchar	*inl;		/* end of input */
 	int	fd;		/* input source */
 	int	ifdepth;	/* conditional nesting in include */
+	int	eofnl;		/* newline supplied at end of file */
 	struct	source *next;	/* stack for #include */
 } Source;
 
diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 8030354..33e6387 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -403,11 +403,20 @@ gettokens(Tokenrow *trp, int reset)
 				continue;
 
 			case S_EOF:
-				tp->type = END;
-				tp->len = 0;
 				s->inp = ip;
-				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1)
+				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1 && !s->eofnl) {
+					s->eofnl = 1;
 					error(WARNING,"No newline at end of file");
+					/* supply it: a #line or other text may follow */
+					tp->t = (uchar*)"\n";
+					tp->type = NL;
+					tp->len = 1;
+					tp->wslen = 0;
+					s->lineinc++;
+				} else {
+					tp->type = END;
+					tp->len = 0;
+				}
 				trp->lp = tp+1;
 				return nmac;
 
@@ -545,6 +554,7 @@ setsource(char *name, int fd, char *str)
 
 	s->line = 1;
 	s->lineinc = 0;
+	s->eofnl = 0;
 	s->fd = fd;
 	s->filename = name;
 	s->next = cursource;
-- 
2.43.0


From 9c02b3843d655423dafb945c1c65acb3e77f45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 052/106] fix: lcc -S leaves an incomplete assembly file behind
 when a compilation fails

---
 lcc/etc/lcc.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lcc/etc/lcc.c b/lcc/etc/lcc.c
index a12799b..791c1de 100644
--- a/lcc/etc/lcc.c
+++ b/lcc/etc/lcc.c
@@ -11,6 +11,8 @@ static char rcsid[] = "Id: dummy rcsid";
 #include <assert.h>
 #include <ctype.h>
 #include <signal.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #ifdef WIN32
 #include <process.h> /* getpid() */
 #include <io.h> /* access() */
@@ -35,6 +37,7 @@ static int callsys(char *[]);
 extern char *concat(char *, char *);
 static int compile(char *, char *);
 static void compose(char *[], List, List, List);
+static void discard(char *);
 static void error(char *, char *);
 static char *exists(char *);
 static char *first(char *);
@@ -416,6 +419,14 @@ static void compose(char *cmd[], List a, List b, List c) {
 	av[j] = NULL;
 }
 
+/* discard - remove the incomplete output file, unless it is a device */
+static void discard(char *file) {
+	struct stat st;
+
+	if (stat(file, &st) == 0 && (st.st_mode & S_IFMT) == S_IFREG)
+		remove(file);
+}
+
 /* error - issue error msg according to fmt, bump error count */
 static void error(char *fmt, char *msg) {
 	fprintf(stderr, "%s: ", progname);
@@ -485,9 +496,12 @@ static int filename(char *name, char *base) {
 	case 1:	/* preprocessed source files */
 		if (Eflag)
 			break;
-		if (Sflag)
-			status = compile(name, outfile ? outfile : concat(base, first(suffixes[2])));
-		else if ((status = compile(name, stemp?stemp:(stemp=tempname(first(suffixes[2]))))) == 0)
+		if (Sflag) {
+			char *sfile = outfile ? outfile : concat(base, first(suffixes[2]));
+			status = compile(name, sfile);
+			if (status)
+				discard(sfile);
+		} else if ((status = compile(name, stemp?stemp:(stemp=tempname(first(suffixes[2]))))) == 0)
 			return filename(stemp, base);
 		break;
 	case 2:	/* assembly language files */
-- 
2.43.0


From 46cf7a832c43859db05f8cdfce638c0f1a6e5969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 053/106] fix: lcc rejects braces around initializers of
 characters and bit-fields, and trailing commas in them

---
 lcc/src/decl.c |  2 ++
 lcc/src/init.c | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index ab170d6..d7e94a0 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -997,6 +997,8 @@ static Symbol dcllocal(int sclass, char *id, Type ty, Coordinate *pos) {
 			if (t == '{') {
 				t = gettok();
 				e = expr1(0);
+				if (t == ',')
+					t = gettok();
 				expect('}');
 			} else
 				e = expr1(0);
diff --git a/lcc/src/init.c b/lcc/src/init.c
index 0e76622..b871e8b 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -58,7 +58,15 @@ static Tree initvalue(Type ty) {
 	Tree e;
 
 	needconst++;
-	e = expr1(0);
+	if (t == '{') {
+		static char follow[] = { IF, CHAR, STATIC, 0 };
+		t = gettok();
+		e = expr1(0);
+		if (t == ',')
+			t = gettok();
+		test('}', follow);
+	} else
+		e = expr1(0);
 	if ((aty = assign(ty, e)) != NULL)
 		e = cast(e, aty);
 	else {
@@ -108,9 +116,9 @@ static int initchar(int len, Type ty) {
 	return n;
 }
 
-/* initend - finish off an initialization at level lev; accepts trailing comma */
+/* initend - finish off an initialization; accepts trailing comma */
 static void initend(int lev, char follow[]) {
-	if (lev == 0 && t == ',')
+	if (t == ',')
 		t = gettok();
 	test('}', follow);
 }
-- 
2.43.0


From 4e5da6891c1013f2c62173660588cc50afa0eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 054/106] fix: lcc rejects a trailing comma after the
 initializer of a bit-field

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index b871e8b..372e70a 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -148,7 +148,7 @@ static int initfields(Field p, Field q) {
 		if (p->link == q)
 			break;
 		p = p->link;
-	} while (t == ',' && (t = gettok()) != 0);
+	} while (t == ',' && (t = gettok()) != 0 && t != '}');
 	n = (n + 7)/8;
 	for (i = 0; i < n; i++) {
 		Value v;
-- 
2.43.0


From b655358c021dc6d311fc1380818b3ad12e6a1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 055/106] fix: lcc indexes the jump table of an unsigned switch
 with values of 2^31 and more

---
 lcc/src/stmt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 55bbca0..cfd4d8e 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -440,8 +440,7 @@ void swcode(Swtch swp, int b[], int lb, int ub) {
 		Symbol table = genident(STATIC,
 			array(voidptype, u - l + 1, 0), GLOBAL);
 		(*IR->defsymbol)(table);
-		if (!isunsigned(swp->sym->type) || v[l] != 0)
-			cmp(LT, swp->sym, v[l], lolab);
+		cmp(LT, swp->sym, v[l], lolab);	/* signed comparisons, whatever the type is */
 		cmp(GT, swp->sym, v[u], hilab);
 		e = (*optree['-'])(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[l]));
 		if (e->type->size < unsignedptr->size)
-- 
2.43.0


From e440c47bcaf4dd8148195af9114eaa735d9090d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 056/106] fix: q3cpp takes other lines that begin with # in
 skipped groups for #if or #line

---
 lcc/cpp/cpp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 5c0cfd7..a443096 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -93,6 +93,9 @@ control(Tokenrow *trp)
 	Token *tp;
 
 	tp = trp->tp;
+	if (skipping && (tp->type!=NAME
+	 || (np = lookup(tp, 0))==NULL || (np->flag&ISKW)==0))
+		return;			/* not a directive that matters here */
 	if (tp->type!=NAME) {
 		if (tp->type==NUMBER)
 			goto kline;
@@ -100,7 +103,7 @@ control(Tokenrow *trp)
 			error(ERROR, "Unidentifiable control line");
 		return;			/* else empty line */
 	}
-	if ((np = lookup(tp, 0))==NULL || ((np->flag&ISKW)==0 && !skipping)) {
+	if ((np = lookup(tp, 0))==NULL || (np->flag&ISKW)==0) {
 		error(WARNING, "Unknown preprocessor control %t", tp);
 		return;
 	}
-- 
2.43.0


From b99868579c7237b64bf8dcb12155d78622d06d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 057/106] fix: q3cpp rejects redefinitions with other white
 space around the parameters

---
 lcc/cpp/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2972083..b92f03c 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -46,7 +46,8 @@ dodefine(Tokenrow *trp)
 					if (atp->len==tp->len
 					 && strncmp((char*)atp->t, (char*)tp->t, tp->len)==0)
 						error(ERROR, "Duplicate macro argument");
-				*args->lp++ = *tp;
+				*args->lp = *tp;
+				args->lp++->wslen = 0;	/* does not matter in redefinitions */
 				narg++;
 				tp += 1;
 				if (tp->type==RP)
-- 
2.43.0


From eacc79d004c72808d1e1f73eff02e1955b2adade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 058/106] fix: q3cpp skips a character in the middle of very
 long comments

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 33e6387..ed5cb75 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -444,7 +444,7 @@ gettokens(Tokenrow *trp, int reset)
 				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
-					ip = tp->t+1;
+					ip = tp->t;
 				}
 				continue;
 
-- 
2.43.0


From 0e4b459962dc88c1f7a2b03a09919d719622c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 059/106] fix: q3cpp ignores everything after a character 0xFD
 or 0xFE

---
 lcc/cpp/cpplex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index ed5cb75..305fd32 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -338,6 +338,8 @@ gettokens(Tokenrow *trp, int reset)
 		for (;;) {
 			oldstate = state;
 			c = *ip;
+			if ((c==EOB || c==EOFC) && ip < s->inl)
+				c = 0x80;	/* a character, not the sentinel */
 			if ((state = bigfsm[c][state]) >= 0) {
 				ip += runelen;
 				runelen = 1;
@@ -530,8 +532,6 @@ fillbuf(Source *s)
 		error(FATAL, "Input buffer overflow");
 	if (s->fd<0 || (n=read(s->fd, (char *)s->inl, INS/8)) <= 0)
 		n = 0;
-	if ((*s->inp&0xff) == EOB) /* sentinel character appears in input */
-		*s->inp = EOFC;
 	s->inl += n;
 	s->inl[0] = s->inl[1]= s->inl[2]= s->inl[3] = EOB;
 	if (n==0) {
-- 
2.43.0


From 8f78cfdde9c9564d797547d95bb4125970ed8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 060/106] fix: q3cpp evaluates #elif conditions after a group
 was taken

---
 lcc/cpp/cpp.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index a443096..3525d54 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -172,13 +172,11 @@ control(Tokenrow *trp)
 		}
 		if (ifsatisfied[ifdepth]==2)
 			error(ERROR, "#elif after #else");
-		if (eval(trp, np->val)) {
-			if (ifsatisfied[ifdepth])
-				skipping = ifdepth;
-			else {
-				skipping = 0;
-				ifsatisfied[ifdepth] = 1;
-			}
+		if (ifsatisfied[ifdepth])
+			skipping = ifdepth;	/* not evaluated */
+		else if (eval(trp, np->val)) {
+			skipping = 0;
+			ifsatisfied[ifdepth] = 1;
 		} else
 			skipping = ifdepth;
 		break;
-- 
2.43.0


From 8a9d98bc8f3f4a6e0827d58aaf898ee74082542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 061/106] fix: q3cpp loses newlines in macro arguments when the
 argument becomes a string

---
 lcc/cpp/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index b92f03c..0ad0ea3 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -266,6 +266,12 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		if (needspace) {
 			needspace = 0;
 			makespace(trp);
+			if (trp->tp->wslen==0 && trp->tp->type!=END) {
+				trp->tp->t = newstring(trp->tp->t, trp->tp->len, 1);
+				*trp->tp->t++ = ' ';
+				trp->tp->wslen = 1;
+			}
+			trp->tp->flag &= ~XPWS;	/* the newline is real white space */
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
-- 
2.43.0


From b982bd7104cf15c6d49b4decaabe353f88ef4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 062/106] fix: q3cpp groups binary operators in #if from the
 right and rejects a ? b ? c : d : e

---
 lcc/cpp/eval.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 95a9e11..5506639 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -21,6 +21,7 @@ struct value {
 #define	SPCL	4
 #define	SHIFT	5
 #define	UNARY	6
+#define	CHOICE	7
 
 /* operator priority, arity, and conversion type, indexed by tokentype */
 struct pri {
@@ -66,7 +67,7 @@ struct pri {
 	{ 9, 2, ARITH },	/* CIRC */
 	{ 8, 2, ARITH },	/* OR */
 	{ 5, 2, SPCL },		/* QUEST */
-	{ 5, 2, SPCL },		/* COLON */
+	{ 5, 2, CHOICE },	/* COLON */
 	{ 0, 0, 0 },		/* ASGN */
 	{ 4, 2, 0 },		/* COMMA */
 	{ 0, 0, 0 },		/* SHARP */
@@ -225,7 +226,10 @@ evalop(struct pri pri)
 
 	rv2=0;
 	rtype=0;
-	while (pri.pri < priority[op[-1]].pri) {
+	while (pri.pri < priority[op[-1]].pri
+	 || (pri.pri == priority[op[-1]].pri	/* binary operators group from the left */
+	  && (pri.ctype==RELAT || pri.ctype==ARITH || pri.ctype==LOGIC || pri.ctype==SHIFT
+	   || (pri.ctype==CHOICE && op[-1]==COLON)))) {
 		oper = *--op;
 		if (priority[oper].arity==2) {
 			v2 = *--vp;
@@ -265,6 +269,7 @@ evalop(struct pri pri)
 			break;
 		case LOGIC:
 		case SPCL:
+		case CHOICE:
 			break;
 		}
 		switch (oper) {
-- 
2.43.0


From d463d14d2de3e3a0113c791e8954d106fe1fec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 063/106] fix: q3cpp: the result of ?: in #if is signed if only
 one operand is unsigned

---
 lcc/cpp/eval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 5506639..a4c6019 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -370,9 +370,13 @@ evalop(struct pri pri)
 				error(ERROR, "Bad ?: in #if/endif");
 			else {
 				op--;
+				rtype = SGN;
+				if (v1.type==UNS || v2.type==UNS)
+					rtype = UNS;
 				if ((--vp)->val==0)
 					v1 = v2;
-				rtype = v1.type;
+				if (v1.type==UND)
+					rtype = UND;
 				rv1 = v1.val;
 			}
 			break;
-- 
2.43.0


From 4593fa3983b77e89f1602758d93f7b19ecc2a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 064/106] fix: q3cpp crashes on the value of a macro from
 -Dname in parentheses in #if

---
 lcc/cpp/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 0ad0ea3..34a0276 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -93,7 +93,8 @@ void
 doadefine(Tokenrow *trp, int type)
 {
 	Nlist *np;
-	static Token onetoken[1] = {{ NUMBER, 0, 0, 0, 1, (uchar*)"1" }};
+	static uchar one[] = "1";	/* eval writes to tokens */
+	static Token onetoken[1] = {{ NUMBER, 0, 0, 0, 1, one }};
 	static Tokenrow onetr = { onetoken, onetoken, onetoken+1, 1 };
 
 	trp->tp = trp->bp;
-- 
2.43.0


From 9db585a66140adbe8612ba0f73ba13d0dca52e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 065/106] fix: q3cpp loses the white space before parameters
 and macros inside an argument that becomes a string

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/macro.c  |  8 ++------
 lcc/cpp/tokens.c | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index 7bfd502..fa59d98 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -131,6 +131,7 @@ long	eval(Tokenrow *, int);
 void	genline(void);
 void	setempty(Tokenrow *);
 void	makespace(Tokenrow *);
+void	forcespace(Token *);
 char	*outnum(char *, int);
 int	digit(int);
 uchar	*newstring(uchar *, int, int);
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 34a0276..d0df73b 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -267,12 +267,8 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		if (needspace) {
 			needspace = 0;
 			makespace(trp);
-			if (trp->tp->wslen==0 && trp->tp->type!=END) {
-				trp->tp->t = newstring(trp->tp->t, trp->tp->len, 1);
-				*trp->tp->t++ = ' ';
-				trp->tp->wslen = 1;
-			}
-			trp->tp->flag &= ~XPWS;	/* the newline is real white space */
+			if (trp->tp->type!=END)
+				forcespace(trp->tp);	/* the newline is real white space */
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index 964453c..1ca5a00 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -131,11 +131,18 @@ void
 insertrow(Tokenrow *dtr, int ntok, Tokenrow *str)
 {
 	int nrtok = rowlen(str);
+	int ws = dtr->tp->wslen && (dtr->tp->flag&XPWS)==0;
 
 	dtr->tp += ntok;
 	adjustrow(dtr, nrtok-ntok);
 	dtr->tp -= ntok;
 	movetokenrow(dtr, str);
+	if (nrtok > 0) {	/* keep white space before the replaced tokens; it may become part of a string */
+		if (ws)
+			forcespace(dtr->tp);
+		else if ((dtr->tp->flag&XPWS)==0)
+			dtr->tp->wslen = 0;
+	}
 	makespace(dtr);
 	dtr->tp += nrtok;
 	makespace(dtr);
@@ -170,6 +177,20 @@ makespace(Tokenrow *trp)
 	tp->flag |= XPWS;
 }
 
+/*
+ * put real white space before a token
+ */
+void
+forcespace(Token *tp)
+{
+	if (tp->wslen==0) {
+		tp->t = newstring(tp->t, tp->len, 1);
+		*tp->t++ = ' ';
+		tp->wslen = 1;
+	}
+	tp->flag &= ~XPWS;
+}
+
 /*
  * Copy an entire tokenrow into another, at tp.
  * It is assumed that there is enough space.
-- 
2.43.0


From faa1d536de50855b94e98ee6de29ed10896d32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 066/106] fix: q3cpp does not expand a macro behind the name of
 a function-like macro without arguments

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index d0df73b..c3b5217 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -252,8 +252,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		}
 		if (trp->tp->type==LP)
 			break;
-		if (trp->tp->type!=NL)
+		if (trp->tp->type!=NL) {
+			trp->tp -= ntok;
 			return ntok;
+		}
 	}
 	*narg = 0;
 	ntok++;
-- 
2.43.0


From f19fe43f2f8addf32f7511f53148283b62f6f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 067/106] fix: q3cpp takes a directive for text after the name
 of a function-like macro at the end of a line

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/cpplex.c | 18 ++++++++++++++++++
 lcc/cpp/macro.c  |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index fa59d98..47020f3 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -132,6 +132,7 @@ void	genline(void);
 void	setempty(Tokenrow *);
 void	makespace(Tokenrow *);
 void	forcespace(Token *);
+int	nextdirective(void);
 char	*outnum(char *, int);
 int	digit(int);
 uchar	*newstring(uchar *, int, int);
diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 305fd32..1e4cfb3 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -541,6 +541,24 @@ fillbuf(Source *s)
 	return 0;
 }
 
+/*
+ * does the next line begin with #?
+ */
+int
+nextdirective(void)
+{
+	Source *s = cursource;
+	uchar *p;
+
+	for (p = s->inp; ; p++) {
+		while (p+2 >= s->inl && fillbuf(s)!=EOF)
+			;
+		if (p >= s->inl || (*p!=' ' && *p!='\t'))
+			break;
+	}
+	return p < s->inl && (*p=='#' || (p[0]=='?' && p[1]=='?' && p[2]=='='));
+}
+
 /*
  * Push down to new source of characters.
  * If fd>0 and str==NULL, then from a file `name';
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index c3b5217..1e6c861 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -243,6 +243,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		trp->tp++;
 		ntok++;
 		if (trp->tp >= trp->lp) {
+			if (nextdirective()) {
+				trp->tp -= ntok;
+				return ntok;
+			}
 			gettokens(trp, 0);
 			if ((trp->lp-1)->type==END) {
 				trp->lp -= 1;
-- 
2.43.0


From cacf5ccf560fb8e7202114da41fc008859fa8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 068/106] fix: q3cpp looks for ## behind the end of a macro
 body

substargs() reads the token behind the last one of the replacement list. If the
memory there holds a ## by chance, the argument is not expanded.
---
 lcc/cpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 1e6c861..577c9c9 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -347,7 +347,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		}
 		if (rtr->tp->type==NAME
 		 && (argno = lookuparg(np, rtr->tp)) >= 0) {
-			if ((rtr->tp+1)->type==DSHARP
+			if ((rtr->tp+1<rtr->lp && (rtr->tp+1)->type==DSHARP)
 			 || (rtr->tp!=rtr->bp && (rtr->tp-1)->type==DSHARP))
 				insertrow(rtr, 1, atr[argno]);
 			else {
-- 
2.43.0


From c72b95db810c464def8acb1455b5e5a033a5d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 069/106] fix: q3cpp ends numbers at an underscore

A preprocessing number may contain underscores. 1 ## A_ lost the underscore, as
only the first token of the pasted text was kept.
---
 lcc/cpp/cpplex.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 1e4cfb3..0196dd4 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -91,13 +91,11 @@ struct	fsm {
 	{NUM1,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM1,	{ C_NUM, C_ALPH, '.' },	NUM1},
 	{NUM1,	{ 'E', 'e' },	NUM2},
-	{NUM1,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw possible start of exponent, digits-e */
 	{NUM2,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM2,	{ '+', '-' },	NUM1},
 	{NUM2,	{ C_NUM, C_ALPH },	NUM1},
-	{NUM2,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw a '.', which could be a number or an operator */
 	{NUM3,	{ C_XX },	ACT(DOT,S_SELFB)},
-- 
2.43.0


From 7d0f739431d540d215ba36fe04f73816f90f134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 070/106] fix: q3cpp -I does not work with absolute directories

The directory of the source file was put in front of them. The name was also
built in 256 bytes that were copied from a string of any length.
---
 lcc/cpp/include.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 5ecd8b3..0c5af8f 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -10,11 +10,17 @@ extern char	*objname;
 void appendDirToIncludeList( char *dir )
 {
 	int i;
-	char *fqdir;
+	char *fqdir, *base;
 
-	fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
-	strcat( fqdir, "/" );
-	strcat( fqdir, dir );
+	base = includelist[NINCLUDE-1].file;
+	fqdir = (char *)domalloc( strlen(base) + strlen(dir) + 2 );
+	if (dir[0] == '/')
+		strcpy( fqdir, dir );
+	else {
+		strcpy( fqdir, base );
+		strcat( fqdir, "/" );
+		strcat( fqdir, dir );
+	}
 
 	//avoid adding it more than once
 	for (i=NINCLUDE-2; i>=0; i--) {
-- 
2.43.0


From ee4ca1062c37458ab68f5430cec3230e7046415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 071/106] fix: q3cpp overflows its table of -I directories

---
 lcc/cpp/unix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/unix.c b/lcc/cpp/unix.c
index bac841d..c908194 100644
--- a/lcc/cpp/unix.c
+++ b/lcc/cpp/unix.c
@@ -32,6 +32,8 @@ setup(int argc, char **argv)
 					includelist[i].deleted = 1;
 			break;
 		case 'I':
+			if (numIncludeDirs >= NINCLUDE)
+				error(FATAL, "Too many -I directives");
 			includeDirs[ numIncludeDirs++ ] = newstring( (uchar *)optarg, strlen( optarg ), 0 );
 			break;
 		case 'D':
-- 
2.43.0


From 5a4315f2554c6f2e23b6f577f054d0d34b16fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 072/106] fix: q3cpp overflows a buffer when ## makes a token
 longer than 127 characters

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 577c9c9..2692cba 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -376,7 +376,7 @@ doconcat(Tokenrow *trp)
 		if (trp->tp->type==DSHARP1)
 			trp->tp->type = DSHARP;
 		else if (trp->tp->type==DSHARP) {
-			char tt[128];
+			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
 			if (ltp<trp->bp || ntp>=trp->lp) {
@@ -384,6 +384,7 @@ doconcat(Tokenrow *trp)
 				continue;
 			}
 			len = ltp->len + ntp->len;
+			tt = domalloc(len+1);
 			strncpy((char*)tt, (char*)ltp->t, ltp->len);
 			strncpy((char*)tt+ltp->len, (char*)ntp->t, ntp->len);
 			tt[len] = '\0';
@@ -391,6 +392,7 @@ doconcat(Tokenrow *trp)
 			maketokenrow(3, &ntr);
 			gettokens(&ntr, 1);
 			unsetsource();
+			dofree(tt);
 			if (ntr.lp-ntr.bp!=2 || ntr.bp->type==UNCLASS)
 				error(WARNING, "Bad token %r produced by ##", &ntr);
 			ntr.lp = ntr.bp+1;
-- 
2.43.0


From 69bd374fc175fcbb857cfb44f41810f900edee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 073/106] fix: q3cpp expands macros without end if more than 30
 of them are nested

newhideset() left a macro out of sets that were full, so it was expanded again.
---
 lcc/cpp/hideset.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lcc/cpp/hideset.c b/lcc/cpp/hideset.c
index bd2540d..c3f1c0f 100644
--- a/lcc/cpp/hideset.c
+++ b/lcc/cpp/hideset.c
@@ -9,7 +9,6 @@
  * Hideset 0 is empty.
  */
 
-#define	HSSIZ	32
 typedef	Nlist	**Hideset;
 Hideset	*hidesets;
 int	nhidesets = 0;
@@ -40,26 +39,26 @@ int
 newhideset(int hs, Nlist *np)
 {
 	int i, len;
-	Nlist *nhs[HSSIZ+3];
-	Hideset hs1, hs2;
+	Hideset nhs, hs1, hs2;
 
+	for (len=0; hidesets[hs][len]; len++)
+		;
+	nhs = (Hideset)domalloc((len+2)*sizeof(*nhs));
 	len = inserths(nhs, hidesets[hs], np);
 	for (i=0; i<nhidesets; i++) {
 		for (hs1=nhs, hs2=hidesets[i]; *hs1==*hs2; hs1++, hs2++)
-			if (*hs1 == NULL)
+			if (*hs1 == NULL) {
+				dofree(nhs);
 				return i;
+			}
 	}
-	if (len>=HSSIZ)
-		return hs;
 	if (nhidesets >= maxhidesets) {
 		maxhidesets = 3*maxhidesets/2+1;
 		hidesets = (Hideset *)realloc(hidesets, (sizeof (Hideset *))*maxhidesets);
 		if (hidesets == NULL)
 			error(FATAL, "Out of memory from realloc");
 	}
-	hs1 = (Hideset)domalloc(len*sizeof(Hideset));
-	memmove(hs1, nhs, len*sizeof(Hideset));
-	hidesets[nhidesets] = hs1;
+	hidesets[nhidesets] = nhs;
 	return nhidesets++;
 }
 
-- 
2.43.0


From 90b71d3485c95fcd399174126690d34f49f6734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 074/106] fix: q3cpp overflows its output buffer with __FILE__,
 __LINE__ and #line

Many of them in one macro call, or a long file name, wrote over its end.
---
 lcc/cpp/include.c |  6 +++---
 lcc/cpp/macro.c   | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 0c5af8f..06a1634 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -126,7 +126,7 @@ genline(void)
 	static Tokenrow tr = { &ta, &ta, &ta+1, 1 };
 	uchar *p;
 
-	ta.t = p = (uchar*)outbufp;
+	ta.t = p = (uchar*)domalloc(strlen(wd) + strlen(cursource->filename) + 40);
 	strcpy((char*)p, "#line ");
 	p += sizeof("#line ")-1;
 	p = (uchar*)outnum((char*)p, cursource->line);
@@ -139,10 +139,10 @@ genline(void)
 	strcpy((char*)p, cursource->filename);
 	p += strlen((char*)p);
 	*p++ = '"'; *p++ = '\n';
-	ta.len = (char*)p-outbufp;
-	outbufp = (char*)p;
+	ta.len = p-ta.t;
 	tr.tp = tr.bp;
 	puttokens(&tr);
+	dofree(ta.t);
 }
 
 void
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2692cba..b8e7e65 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -467,7 +467,7 @@ stringify(Tokenrow *vp)
 void
 builtin(Tokenrow *trp, int biname)
 {
-	char *op;
+	char *op, *start;
 	Token *tp;
 	Source *s;
 
@@ -481,11 +481,12 @@ builtin(Tokenrow *trp, int biname)
 		s = cursource;
 	/* most are strings */
 	tp->type = STRING;
+	start = domalloc(2*strlen(s->filename) + 40);
 	if (tp->wslen) {
-		*outbufp++ = ' ';
+		*start++ = ' ';
 		tp->wslen = 1;
 	}
-	op = outbufp;
+	op = start;
 	*op++ = '"';
 	switch (biname) {
 
@@ -520,7 +521,6 @@ builtin(Tokenrow *trp, int biname)
 	}
 	if (tp->type==STRING)
 		*op++ = '"';
-	tp->t = (uchar*)outbufp;
-	tp->len = op - outbufp;
-	outbufp = op;
+	tp->t = (uchar*)start;
+	tp->len = op - start;
 }
-- 
2.43.0


From 2b5e371bf766b71bddf57b069bee8657b09bfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 075/106] fix: q3cpp overflows its stacks in #if expressions
 with more than 31 operators

---
 lcc/cpp/eval.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index a4c6019..695d425 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -2,7 +2,6 @@
 #include <string.h>
 #include "cpp.h"
 
-#define	NSTAK	32
 #define	SGN	0
 #define	UNS	1
 #define	UND	2
@@ -93,8 +92,9 @@ struct pri {
 
 int	evalop(struct pri);
 struct	value tokval(Token *);
-struct value vals[NSTAK], *vp;
-enum toktype ops[NSTAK], *op;
+struct value *vals, *vp;
+enum toktype *ops, *op;
+int	nstak;
 
 /*
  * Evaluate an #if #elif #ifdef #ifndef line.  trp->tp points to the keyword.
@@ -119,6 +119,13 @@ eval(Tokenrow *trp, int kw)
 	kwdefined->val = KDEFINED;	/* activate special meaning of defined */
 	expandrow(trp, "<if>");
 	kwdefined->val = NAME;
+	if (nstak < trp->lp-trp->bp+2) {	/* no token pushes more than one operator or value */
+		dofree(vals);
+		dofree(ops);
+		nstak = trp->lp-trp->bp+2;
+		vals = domalloc(nstak*sizeof(*vals));
+		ops = domalloc(nstak*sizeof(*ops));
+	}
 	vp = vals;
 	op = ops;
 	*op++ = END;
-- 
2.43.0


From 823e0d3267dfa12e5f86cd04a0704184a5180c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 076/106] fix: q3cpp is killed when the smallest number is
 divided by -1 in #if

---
 lcc/cpp/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 695d425..24662b0 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -359,6 +359,8 @@ evalop(struct pri pri)
 			}
 			if (rtype==UNS)
 				rv1 /= (unsigned long)rv2;
+			else if (rv2==-1)	/* may overflow */
+				rv1 = -(unsigned long)rv1;
 			else
 				rv1 /= rv2;
 			break;
@@ -369,6 +371,8 @@ evalop(struct pri pri)
 			}
 			if (rtype==UNS)
 				rv1 %= (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = 0;
 			else
 				rv1 %= rv2;
 			break;
-- 
2.43.0


From 841c82209840d8a82e01a90313475c8ded3a4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 077/106] fix: q3cpp reads behind its input buffer and behind
 #include < lines without >

---
 lcc/cpp/cpplex.c  | 4 ++--
 lcc/cpp/include.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 0196dd4..1f1c976 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -501,7 +501,7 @@ trigraph(Source *s)
 	}
 	if (c) {
 		*s->inp = c;
-		memmove(s->inp+1, s->inp+3, s->inl-s->inp+2);
+		memmove(s->inp+1, s->inp+3, s->inl-s->inp+1);
 		s->inl -= 2;
 	}
 	return c;
@@ -513,7 +513,7 @@ foldline(Source *s)
 	while (s->inp+1 >= s->inl && fillbuf(s)!=EOF)
 		;
 	if (s->inp[1] == '\n') {
-		memmove(s->inp, s->inp+2, s->inl-s->inp+3);
+		memmove(s->inp, s->inp+2, s->inl-s->inp+2);
 		s->inl -= 2;
 		return 1;
 	}
diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 06a1634..f8580a3 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -66,7 +66,7 @@ doinclude(Tokenrow *trp)
 		len = 0;
 		trp->tp++;
 		while (trp->tp->type!=GT) {
-			if (trp->tp>trp->lp || len+trp->tp->len+2 >= sizeof(fname))
+			if (trp->tp->type==NL || trp->tp>=trp->lp-1 || len+trp->tp->len+2 >= sizeof(fname))
 				goto syntax;
 			strncpy(fname+len, (char*)trp->tp->t, trp->tp->len);
 			len += trp->tp->len;
-- 
2.43.0


From 67f7ade1e6ec32353a1484a9d33d6310cf5b24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 078/106] fix: q3cpp reads behind macro bodies that end with #

---
 lcc/cpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index b8e7e65..473a9a7 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -336,7 +336,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		if (rtr->tp->type==SHARP) {	/* string operator */
 			tp = rtr->tp;
 			rtr->tp += 1;
-			if ((argno = lookuparg(np, rtr->tp))<0) {
+			if (rtr->tp>=rtr->lp || (argno = lookuparg(np, rtr->tp))<0) {
 				error(ERROR, "# not followed by macro parameter");
 				continue;
 			}
-- 
2.43.0


From 95fe7986cc75d1ddf3b21a139181ba599a1cd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 079/106] fix: lcc compares bit-fields of 32 bits with 0
 wrongly

The mask was made with a shift by 32 bits: all such fields were equal to 0.
---
 lcc/src/c.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/c.h b/lcc/src/c.h
index 43bec08..5efe20c 100644
--- a/lcc/src/c.h
+++ b/lcc/src/c.h
@@ -61,7 +61,7 @@
 #define fieldright(p) ((p)->lsb - 1)
 #define fieldleft(p)  (8*(p)->type->size - \
                         fieldsize(p) - fieldright(p))
-#define fieldmask(p)  (~(~(unsigned)0<<fieldsize(p)))
+#define fieldmask(p)  (~(unsigned)0>>(8*unsignedtype->size - fieldsize(p)))
 typedef struct node *Node;
 
 typedef struct list *List;
-- 
2.43.0


From 0791fc72968de81b1bf9a1a1a52c70680178392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 080/106] fix: lcc writes uninitialized memory for wide string
 literals

The characters are held in ints, but only as many bytes as the array has were
copied, and all of them are written.
---
 lcc/src/expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 456b276..ac3fff8 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -348,7 +348,8 @@ static Tree primary(void) {
 	case SCON: if (ischar(tsym->type->type))
 		   	tsym->u.c.v.p = stringn(tsym->u.c.v.p, tsym->type->size);
 		   else
-		   	tsym->u.c.v.p = memcpy(allocate(tsym->type->size, PERM), tsym->u.c.v.p, tsym->type->size);
+		   	tsym->u.c.v.p = memcpy(allocate(tsym->type->size/widechar->size*sizeof (unsigned int), PERM),
+		   		tsym->u.c.v.p, tsym->type->size/widechar->size*sizeof (unsigned int));
 		   tsym = constant(tsym->type, tsym->u.c.v); 
 		   if (tsym->u.c.loc == NULL)
 		   	tsym->u.c.loc = genident(STATIC, tsym->type, GLOBAL);
-- 
2.43.0


From 3f804a1d74ad76813a8e5e78ef0655b6d052cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 081/106] fix: lcc -Wf-x crashes on unknown enumerations

---
 lcc/src/decl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index d7e94a0..2f9ed3f 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -1151,7 +1151,7 @@ Type enumdcl(void) {
 		ty->type = inttype;
 	}
 	if (*tag && xref)
-		use(p, pos);
+		use(ty->u.sym, pos);
 	return ty;
 }
 
-- 
2.43.0


From 4e18fdd6190e468605499589afe993ad4ee3e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 082/106] fix: lcc crashes on members of a conditional
 expression of incomplete type

---
 lcc/src/enode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 76a40fe..7aa60a0 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -399,6 +399,10 @@ Tree addrof(Tree p) {
 			continue;
 		case COND: {
 			Symbol t1 = q->u.sym;
+			if (t1 == NULL) {	/* void or of incomplete type */
+				error("addressable object required\n");
+				return value(p);
+			}
 			q->u.sym = 0;
 			if (t1->scope >= LOCAL)
 				addlocal(t1);	/* dag.c does not see t1 any more */
-- 
2.43.0


From ff1790621087894f3e3e1f88589be685c76edb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 083/106] fix: q3cpp does not know the escape \a in #if

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 24662b0..1e3cfdd 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -499,7 +499,7 @@ tokval(Token *tp)
 				}
 			} else {
 				static char cvcon[]
-				  = "b\bf\fn\nr\rt\tv\v''\"\"??\\\\";
+				  = "a\ab\bf\fn\nr\rt\tv\v''\"\"??\\\\";
 				for (i=0; i<sizeof(cvcon); i+=2) {
 					if (*p == cvcon[i]) {
 						n = cvcon[i+1];
-- 
2.43.0


From 370ff2b555c2f800a7014ba12627ead4df57044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 084/106] fix: lcc does not end if the last line of its input
 is a directive without a newline

---
 lcc/src/input.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/input.c b/lcc/src/input.c
index c2a084e..345652f 100644
--- a/lcc/src/input.c
+++ b/lcc/src/input.c
@@ -126,9 +126,11 @@ static void resynch(void) {
 		warning("unrecognized control line\n");
 	while (*cp)
 		if (*cp++ == '\n') {
-			if (cp == limit + 1)
+			if (cp == limit + 1) {
 				nextline();
-			else
+				if (cp == limit)
+					break;
+			} else
 				break;
 		}
 }
-- 
2.43.0


From 117e8febf7690fc85fdf5554c6477ec7d60d9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 085/106] fix: lcc overflows a buffer with types and names of
 more than 1023 characters

---
 lcc/src/output.c | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/lcc/src/output.c b/lcc/src/output.c
index a9c93e7..704d2cd 100644
--- a/lcc/src/output.c
+++ b/lcc/src/output.c
@@ -52,15 +52,56 @@ void fprint(FILE *f, const char *fmt, ...) {
 	va_end(ap);
 }
 
+/* outlen - upper bound for the length of what vfprint writes to a string */
+static unsigned long outlen(const char *fmt, va_list ap) {
+	unsigned long n = 0;
+
+	for (; *fmt; fmt++)
+		if (*fmt == '%')
+			switch (*++fmt) {
+			case 'd': case 'u': case 'o': case 'x': case 'k':
+				(void)va_arg(ap, int); n += 25; break;
+			case 'D': case 'U': case 'X':
+				(void)va_arg(ap, long); n += 25; break;
+			case 'f': case 'e': case 'g':
+				(void)va_arg(ap, double); n += 128; break;
+			case 's': n += strlen(va_arg(ap, char *)); break;
+			case 'p': (void)va_arg(ap, void *); n += 27; break;
+			case 'c': (void)va_arg(ap, int); n++; break;
+			case 'S': (void)va_arg(ap, char *); /* fall thru */
+			case 'I': n += va_arg(ap, int); break;
+			case 'w': { Coordinate *p = va_arg(ap, Coordinate *);
+				    if (p->file)
+				    	n += strlen(p->file);
+				    n += 26;
+ } break;
+			default:  n++; break;
+			}
+		else
+			n++;
+	return n;
+}
+
 /* stringf - formatted output to a saved string */
 char *stringf(const char *fmt, ...) {
-	char buf[1024];
+	char buf[1024], *bp = buf, *s;
+	unsigned long n;
 	va_list ap;
 
 	va_start(ap, fmt);
-	vfprint(NULL, buf, fmt, ap);
+	n = outlen(fmt, ap) + 1;
+	va_end(ap);
+	if (n > sizeof buf && (bp = malloc(n)) == NULL) {
+		error("insufficient memory\n");
+		exit(EXIT_FAILURE);
+	}
+	va_start(ap, fmt);
+	vfprint(NULL, bp, fmt, ap);
 	va_end(ap);
-	return string(buf);
+	s = string(bp);
+	if (bp != buf)
+		free(bp);
+	return s;
 }
 
 /* vfprint - formatted output to f or string bp */
-- 
2.43.0


From 50d5a533ae7147c2d3d3954f59c7e04b505be0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 086/106] fix: lcc accepts empty character constants

---
 lcc/src/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/src/lex.c b/lcc/src/lex.c
index ec2f1ec..01a3a33 100644
--- a/lcc/src/lex.c
+++ b/lcc/src/lex.c
@@ -342,6 +342,8 @@ int gettok(void) {
 				unsigned int *s = scon(*cp, wcput, wcbuf);
 				if (s - wcbuf > 2)
 					warning("excess characters in wide-character literal ignored\n");
+				else if (s - wcbuf < 2)
+					error("empty character constant\n");
 				tval.type = widechar;
 				tval.u.c.v.u = wcbuf[0];
 				tsym = &tval;
@@ -358,6 +360,8 @@ int gettok(void) {
 			char *s = scon(*--cp, cput, cbuf);
 			if (s - cbuf > 2)
 				warning("excess characters in multibyte character literal ignored\n");
+			else if (s - cbuf < 2)
+				error("empty character constant\n");
 			tval.type = inttype;
 			if (chartype->op == INT)
 				tval.u.c.v.i = extend(cbuf[0], chartype);
-- 
2.43.0


From 349fa352d7ad64a30496941218d8c4981b709754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 087/106] fix: q3cpp reports success after #if with a missing
 parenthesis

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 1e3cfdd..a258453 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -248,7 +248,7 @@ evalop(struct pri pri)
 		switch (priority[oper].ctype) {
 		case 0:
 		default:
-			error(WARNING, "Syntax error in #if/#endif");
+			error(ERROR, "Syntax error in #if/#endif");
 			return 1;
 		case ARITH:
 		case RELAT:
-- 
2.43.0


From e22ecddb66fba263fab71bd0c75009332da43c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 088/106] fix: lcc accepts ++ and -- before arrays

---
 lcc/src/expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index ac3fff8..1420098 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -182,8 +182,8 @@ static Tree unary(void) {
 						  	p = simplify(NOT, inttype, cond(p), NULL);
 						  else
 						  	typeerror(NOT, p, NULL); break;
-	case INCR:   t = gettok(); p = unary(); p = incr(INCR, pointer(p), consttree(1, inttype)); break;
-	case DECR:   t = gettok(); p = unary(); p = incr(DECR, pointer(p), consttree(1, inttype)); break;
+	case INCR:   t = gettok(); p = unary(); p = incr(INCR, p, consttree(1, inttype)); break;
+	case DECR:   t = gettok(); p = unary(); p = incr(DECR, p, consttree(1, inttype)); break;
 	case TYPECODE: case SIZEOF: { int op = t;
 				      Type ty;
 				      p = NULL;
-- 
2.43.0


From abc60af21512adb980e10ad84e302c2d735951e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 089/106] fix: lcc rejects functions that return structs and do
 not end with return

---
 lcc/src/decl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 2f9ed3f..e0dc466 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -778,7 +778,7 @@ static void funcdefn(int sclass, char *id, Type ty, Symbol params[], Coordinate
 		if (cp->kind != Jump) {
 			if (rty != voidtype) {
 				warning("missing return value\n");
-				retcode(cnsttree(inttype, 0L));
+				retcode(isstruct(rty) ? NULL : cnsttree(inttype, 0L));
 			} else
 				retcode(NULL);
 		}
-- 
2.43.0


From 49ec318f6258e0f107185120460645bb2e33b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 090/106] fix: lcc rejects return of structs with const members
 and of const structs

---
 lcc/src/decl.c | 4 ++--
 lcc/src/stmt.c | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index e0dc466..8fe4db9 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -768,7 +768,7 @@ static void funcdefn(int sclass, char *id, Type ty, Symbol params[], Coordinate
 	codelist = &codehead;
 	codelist->next = NULL;
 	if (!IR->wants_callb && isstruct(rty))
-		retv = genident(AUTO, ptr(rty), PARAM);
+		retv = genident(AUTO, ptr(unqual(rty)), PARAM);
 	compound(0, NULL, 0);
 
 	{
@@ -851,7 +851,7 @@ void compound(int loop, struct swtch *swp, int lev) {
 	autos = registers = NULL;
 	if (level == LOCAL && IR->wants_callb
 	&& isstruct(freturn(cfunc->type))) {
-		retv = genident(AUTO, ptr(freturn(cfunc->type)), level);
+		retv = genident(AUTO, ptr(unqual(freturn(cfunc->type))), level);
 		retv->defined = 1;
 		retv->ref = 1;
 		registers = append(retv, registers);
diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index cfd4d8e..6c1ee31 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -500,8 +500,13 @@ void retcode(Tree p) {
 					tree(CALL+B, p->type,
 						p->kids[0]->kids[0], idtree(retv)),
 					rvalue(idtree(retv)));
-			else
+			else {
+				Symbol s = unqual(ty)->u.sym;
+				unsigned cfields = s->u.s.cfields;
+				s->u.s.cfields = 0;
 				p = asgntree(ASGN, rvalue(idtree(retv)), p);
+				s->u.s.cfields = cfields;
+			}
 			walk(p, 0, 0);
 			if (events.returns)
 				apply(events.returns, cfunc, rvalue(idtree(retv)));
-- 
2.43.0


From 619d0f4f03d6806955b0dfdf5a6ac02f4624a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 091/106] fix: lcc accepts assignments to structs with nested
 const members

---
 lcc/src/decl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 8fe4db9..9232e1d 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -597,8 +597,14 @@ static void fields(Type ty) {
 					error("undefined size for field `%t %s'\n",
 						p->type, id);
 			}
-			if (isconst(p->type))
+			{
+			Type fty = p->type;
+			while (isarray(fty))
+				fty = unqual(fty)->type;
+			if (isconst(fty)
+			||  (isstruct(fty) && unqual(fty)->u.sym->u.s.cfields))
 				ty->u.sym->u.s.cfields = 1;
+			}
 			if (isvolatile(p->type))
 				ty->u.sym->u.s.vfields = 1;
 	  		n++;
-- 
2.43.0


From 84ee0e50a60033a0bebe59e1626eb87e1b63bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 092/106] fix: q3cpp accepts #elif in a header without #if

---
 lcc/cpp/cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 3525d54..29fa317 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -166,7 +166,7 @@ control(Tokenrow *trp)
 		break;
 
 	case KELIF:
-		if (ifdepth==0) {
+		if (ifdepth==0 || cursource->ifdepth==0) {
 			error(ERROR, "#elif with no #if");
 			return;
 		}
-- 
2.43.0


From e0a5d5ea0569318675379f26d64082aa46980b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 093/106] fix: q3cpp accepts #else and #elif after #else in
 skipped groups

---
 lcc/cpp/cpp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 29fa317..5ee2ff8 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -122,12 +122,17 @@ control(Tokenrow *trp)
 			if (++ifdepth >= NIF)
 				error(FATAL, "#if too deeply nested");
 			++cursource->ifdepth;
+			ifsatisfied[ifdepth] = 1;
 			return;
 
 		case KELIF:
 		case KELSE:
 			if (ifdepth<=skipping)
 				break;
+			if (ifsatisfied[ifdepth]==2)
+				error(ERROR, "#%t after #else", tp);
+			if (np->val==KELSE)
+				ifsatisfied[ifdepth] = 2;
 			return;
 
 		default:
-- 
2.43.0


From d9d2fad374965da3bbf26e34357c95448f537547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 094/106] fix: lcc -Wf-g writes before a buffer if #line names
 a directory

---
 lcc/src/bytecode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 83f50dc..9da39d8 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -267,9 +267,9 @@ static void LoadSourceFile( const char *filename ) {
 		return;
 	}
 	length = filelength( f );
-	sourceFile = malloc( length + 1 );
+	sourceFile = length < 0 ? NULL : malloc( length + 1 );	// directories have no length
 	if ( sourceFile ) {
-		fread( sourceFile, length, 1, f );
+		length = fread( sourceFile, 1, length, f );
 		sourceFile[length] = 0;
 	}
 
-- 
2.43.0


From a533b22a117258c4a4711fea762595069e75bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 095/106] fix: lcc takes files that cannot be read for empty
 files

---
 lcc/cpp/cpplex.c | 4 +++-
 lcc/src/input.c  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 1f1c976..050ed3b 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -528,8 +528,10 @@ fillbuf(Source *s)
 	nr = INS/8;
 	if ((char *)s->inl+nr > (char *)s->inb+INS)
 		error(FATAL, "Input buffer overflow");
-	if (s->fd<0 || (n=read(s->fd, (char *)s->inl, INS/8)) <= 0)
+	if (s->fd<0)
 		n = 0;
+	else if ((n=read(s->fd, (char *)s->inl, INS/8)) < 0)
+		error(FATAL, "Read error");
 	s->inl += n;
 	s->inl[0] = s->inl[1]= s->inl[2]= s->inl[3] = EOB;
 	if (n==0) {
diff --git a/lcc/src/input.c b/lcc/src/input.c
index 345652f..a7957fe 100644
--- a/lcc/src/input.c
+++ b/lcc/src/input.c
@@ -51,7 +51,7 @@ void fillbuf(void) {
 		bsize = 0;
 	else
 		bsize = fread(&buffer[MAXLINE+1], 1, BUFSIZE, stdin);
-	if (bsize < 0) {
+	if (ferror(stdin)) {
 		error("read error\n");
 		exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 2afd13e62e090fc93a1868298607cb9f48b4e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 096/106] fix: lcc reports success if its output could not be
 written

---
 lcc/cpp/tokens.c | 20 ++++++++++++++------
 lcc/src/main.c   |  4 ++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index 1ca5a00..91e98f8 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -307,6 +307,16 @@ peektokens(Tokenrow *trp, char *str)
 	fflush(stderr);
 }
 
+static void
+writeout(const char *p, int n)
+{
+	int k;
+
+	for (; n>0; p += k, n -= k)
+		if ((k = write(1, p, n)) <= 0)
+			error(FATAL, "Write error");
+}
+
 void
 puttokens(Tokenrow *trp)
 {
@@ -325,16 +335,14 @@ puttokens(Tokenrow *trp)
 			len += tp->wslen+tp->len;
 		}
 		if (len>OBS/2) {		/* handle giant token */
-			if (wbp > wbuf)
-				write(1, wbuf, wbp-wbuf);
-			write(1, (char *)p, len);
-			wbp = wbuf;
+			flushout();
+			writeout((char *)p, len);
 		} else {	
 			memcpy(wbp, p, len);
 			wbp += len;
 		}
 		if (wbp >= &wbuf[OBS]) {
-			write(1, wbuf, OBS);
+			writeout(wbuf, OBS);
 			if (wbp > &wbuf[OBS])
 				memmove(wbuf, wbuf+OBS, wbp - &wbuf[OBS]);
 			wbp -= OBS;
@@ -349,7 +357,7 @@ void
 flushout(void)
 {
 	if (wbp>wbuf) {
-		write(1, wbuf, wbp-wbuf);
+		writeout(wbuf, wbp-wbuf);
 		wbp = wbuf;
 	}
 }
diff --git a/lcc/src/main.c b/lcc/src/main.c
index 63b85f2..c4e081d 100644
--- a/lcc/src/main.c
+++ b/lcc/src/main.c
@@ -74,6 +74,10 @@ int main(int argc, char *argv[]) {
 	finalize();
 	(*IR->progend)();
 	deallocate(PERM);
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprint(stderr, "%s: write error\n", argv[0]);
+		exit(EXIT_FAILURE);
+	}
 	return errcnt > 0;
 }
 /* main_init - process program arguments */
-- 
2.43.0


From e45e3e3bb8f2d11dae41d6764d62cebc8fbc57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 097/106] fix: lcc overflows a buffer with names of temporary
 directories of more than 1000 characters

---
 lcc/etc/lcc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lcc/etc/lcc.c b/lcc/etc/lcc.c
index 791c1de..2a4e260 100644
--- a/lcc/etc/lcc.c
+++ b/lcc/etc/lcc.c
@@ -830,12 +830,20 @@ char *strsave(const char *str) {
 
 /* stringf - format and return a string */
 char *stringf(const char *fmt, ...) {
-	char buf[1024];
+	char buf[1024], *s = buf;
 	va_list ap;
+	int n;
 
 	va_start(ap, fmt);
-	vsprintf(buf, fmt, ap);
+	n = vsnprintf(buf, sizeof buf, fmt, ap);
 	va_end(ap);
+	if (n >= (int)sizeof buf) {
+		s = alloc(n + 1);
+		va_start(ap, fmt);
+		vsprintf(s, fmt, ap);
+		va_end(ap);
+		return s;
+	}
 	return strsave(buf);
 }
 
-- 
2.43.0


From 54de12e512fa1b2db3565f27f69139d47f3a5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 098/106] fix: lcc misreads initializers without braces of
 unions and of structs with unnamed bit-fields at the end

---
 lcc/src/init.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 372e70a..cfbc7f7 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -176,7 +176,7 @@ static int initstruct(int len, Type ty, int lev) {
 		}
 		if (p->lsb) {
 			Field q = p;
-			while (q->link && q->link->offset == p->offset)
+			while (!isunion(ty) && q->link && q->link->offset == p->offset)
 				q = q->link;
 			n += initfields(p, q->link);
 			p = q;
@@ -184,11 +184,18 @@ static int initstruct(int len, Type ty, int lev) {
 			initializer(p->type, lev);
 			n += p->type->size;
 		}
+		if (isunion(ty))
+			break;	/* only the first member is initialized */
 		if (p->link) {
 			p = p->link;
 			a = p->type->align;
-		} else
+		} else {
 			a = ty->align;
+			if (n < ty->size) {	/* unnamed fields at the end */
+				(*IR->space)(ty->size - n);
+				n = ty->size;
+			}
+		}
 		if (a && n%a) {
 			(*IR->space)(a - n%a);
 			n = roundup(n, a);
-- 
2.43.0


From 6abb1bc81cb7c162aa35445807c17ab7eec82c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 099/106] fix: lcc writes no file if the name of the output
 begins with -

---
 lcc/etc/lcc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/etc/lcc.c b/lcc/etc/lcc.c
index 2a4e260..c588749 100644
--- a/lcc/etc/lcc.c
+++ b/lcc/etc/lcc.c
@@ -498,6 +498,8 @@ static int filename(char *name, char *base) {
 			break;
 		if (Sflag) {
 			char *sfile = outfile ? outfile : concat(base, first(suffixes[2]));
+			if (*sfile == '-')	/* not an option of the compiler */
+				sfile = concat("./", sfile);
 			status = compile(name, sfile);
 			if (status)
 				discard(sfile);
-- 
2.43.0


From 198020490b37031b457bd0bf345128b4d376a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 100/106] fix: lcc computes with overflows in the sizes of too
 large structs

---
 lcc/src/decl.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 9232e1d..8e4be32 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -630,7 +630,8 @@ static void fields(Type ty) {
 			off = add(off, bits2bytes(bits-1));
 			bits = 0;
 			chkoverflow(off, a - 1);
-			off = roundup(off, a);
+			if (!overflow)
+				off = roundup(off, a);
 		}
 		if (a > ty->align)
 			ty->align = a;
@@ -647,8 +648,8 @@ static void fields(Type ty) {
 			bits += p->bitsize;
 		} else
 			off = add(off, p->type->size);
-		if (off + bits2bytes(bits-1) > ty->size)
-			ty->size = off + bits2bytes(bits-1);
+		if (add(off, bits2bytes(bits-1)) > ty->size)
+			ty->size = add(off, bits2bytes(bits-1));
 	  	if (p->name == NULL
 	  	|| !('1' <= *p->name && *p->name <= '9')) {
 	  		*q = p;
@@ -657,8 +658,9 @@ static void fields(Type ty) {
 	  }
 	  *q = NULL;
 	  chkoverflow(ty->size, ty->align - 1);
-	  ty->size = roundup(ty->size, ty->align);
-	  if (overflow) {
+	  if (!overflow)
+	  	ty->size = roundup(ty->size, ty->align);
+	  else {
 	  	error("size of `%t' exceeds %d bytes\n", ty, inttype->u.sym->u.limits.max.i);
 	  	ty->size = inttype->u.sym->u.limits.max.i&(~(ty->align - 1));
 	  } }
-- 
2.43.0


From fc36f38622895b80b74c2527344645d5e4ae5691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 101/106] fix: debug output of OP_ENTER names the function that
 is entered

---
 src/vm/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 3565d91..f09172f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1271,9 +1271,9 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
-                           VM_ValueToSymbol(vm, programCounter - 5));
+                           VM_ValueToSymbol(vm, programCounter - 2));
                 if (vm->breakFunction &&
-                    programCounter - 5 == vm->breakFunction)
+                    programCounter - 2 == vm->breakFunction)
                 {
                     /* this is to allow setting breakpoints here in the
                      * debugger */
-- 
2.43.0


From ee86bafecbdcaa584b483d16ae84542cc18976a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 102/106] fix: find the symbol file of a .qvm in a directory
 with a dot in its name

---
 src/vm/vm.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f09172f..fb57c6c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1778,11 +1778,25 @@ static int ParseHex(const char* text)
 
 static void COM_StripExtension(const char* in, char* out)
 {
-    while (*in && *in != '.')
+    char* extension = NULL;
+
+    while (*in)
     {
+        if (*in == '.')
+        {
+            extension = out;
+        }
+        else if (*in == '/' || *in == '\\')
+        {
+            extension = NULL; /* the dot was part of a directory name */
+        }
         *out++ = *in++;
     }
     *out = 0;
+    if (extension)
+    {
+        *extension = 0;
+    }
 }
 
 uint8_t* loadImage(const char* filepath, int* size)
-- 
2.43.0


From cb70ad1eb6a1d23322195d504224fbda824f1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 103/106] fix: a quoted name that does not end in a .map file
 was read beyond its end

---
 src/vm/vm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index fb57c6c..3222b40 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1940,7 +1940,11 @@ static char* COM_Parse(char** data_p)
         data++;
         while (1)
         {
-            c = *data++;
+            c = *data;
+            if (c)
+            {
+                data++; /* but stay at the end of the text */
+            }
             if (c == '\"' || !c)
             {
                 com_token[len] = 0;
-- 
2.43.0


From 26dbb611804931924204648345b4608994213ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 104/106] fix: the value of an assignment of a constant that
 does not fit to a signed bit-field

---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 7aa60a0..e9fcee1 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -320,6 +320,8 @@ Tree asgntree(int op, Tree l, Tree r) {
 				n = r->u.v.i;
 				if (n&(1<<(fieldsize(l->u.field)-1)))
 					n |= ~0UL<<fieldsize(l->u.field);
+				else
+					n &= fieldmask(l->u.field);
 				r = cnsttree(r->type, n);
 			} else
 				r = shtree(RSH,
-- 
2.43.0


From 614f57898dee1951903fb9e8c2def1d2c55db64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 105/106] fix: ## of a macro argument was taken for an operator
 by the enclosing macro

---
 lcc/cpp/macro.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 473a9a7..6b7a8bf 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -373,9 +373,7 @@ doconcat(Tokenrow *trp)
 	int len;
 
 	for (trp->tp=trp->bp; trp->tp<trp->lp; trp->tp++) {
-		if (trp->tp->type==DSHARP1)
-			trp->tp->type = DSHARP;
-		else if (trp->tp->type==DSHARP) {
+		if (trp->tp->type==DSHARP) {
 			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
@@ -396,6 +394,8 @@ doconcat(Tokenrow *trp)
 			if (ntr.lp-ntr.bp!=2 || ntr.bp->type==UNCLASS)
 				error(WARNING, "Bad token %r produced by ##", &ntr);
 			ntr.lp = ntr.bp+1;
+			if (ntr.bp->type==DSHARP)
+				ntr.bp->type = DSHARP1;	/* not an operator */
 			trp->tp = ltp;
 			makespace(&ntr);
 			insertrow(trp, (ntp-ltp)+1, &ntr);
-- 
2.43.0


From 08c6127b228add9c2f295f4fd153435998f18d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 106/106] fix: q3cpp takes a directive behind a comment for
 text after the name of a function-like macro

---
 lcc/cpp/cpplex.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 050ed3b..2f80f54 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -549,11 +549,24 @@ nextdirective(void)
 {
 	Source *s = cursource;
 	uchar *p;
+	int comment = 0;
 
 	for (p = s->inp; ; p++) {
-		while (p+2 >= s->inl && fillbuf(s)!=EOF)
+		while (p+2 >= s->inl && s->inl+INS/8 <= s->inb+INS && fillbuf(s)!=EOF)
 			;
-		if (p >= s->inl || (*p!=' ' && *p!='\t'))
+		if (p >= s->inl)
+			break;
+		if (comment) {
+			if (p[0]=='*' && p[1]=='/') {
+				comment = 0;
+				p++;
+			}
+		} else if (p[0]=='/' && p[1]=='*') {
+			comment = 1;
+			p++;
+		} else if (p[0]=='\\' && p[1]=='\n')
+			p++;
+		else if (*p!=' ' && *p!='\t')
 			break;
 	}
 	return p < s->inl && (*p=='#' || (p[0]=='?' && p[1]=='?' && p[2]=='='));
-- 
2.43.0

