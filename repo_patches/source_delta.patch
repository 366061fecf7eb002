From 8ab9a1151891bb2776c0096d0a371868cdf2ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 01/80] fix: reject headers whose section sizes overflow the
 range check

codeOffset + codeLength and dataOffset + dataLength + litLength were added
as ints: large values wrap and pass, and the sections are then copied from
far outside the image. Every instruction takes at least one byte, so more
instructions than code bytes is a bad header as well.
---
 src/vm/vm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 88d6092..f3e96ff 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -472,9 +472,13 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
-            header.h->codeOffset + header.h->codeLength > length ||
-            header.h->dataOffset + header.h->dataLength + header.h->litLength >
-                length)
+            header.h->codeLength > length ||
+            header.h->codeOffset > length - header.h->codeLength ||
+            header.h->instructionCount > header.h->codeLength ||
+            header.h->dataLength > length ||
+            header.h->litLength > length - header.h->dataLength ||
+            header.h->dataOffset >
+                length - header.h->dataLength - header.h->litLength)
         {
             Com_Printf("Warning: %s has bad header\n", vm->name);
             return NULL;
-- 
2.43.0


From 2e64d2693c6ef392d72a2effcf9f2ece803488c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 02/80] fix: do not byte swap the header inside the caller's
 bytecode

VM_Create takes a const pointer but VM_LoadQVM wrote the swapped header back
through it: an image in read-only memory crashes the host, and on big endian
machines the same image cannot be loaded twice.
---
 src/vm/vm.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f3e96ff..1f19931 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -276,16 +276,19 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] bytecode Pointer to bytecode.
  * @param[in] length Number of bytes in bytecode array.
- * @return Pointer to start/header of vm bytecode. */
+ * @param[out] headerOut Header of vm bytecode in host byte order.
+ * @return Pointer to headerOut. NULL if something went wrong. */
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length);
+                                    int length, vmHeader_t* headerOut);
 
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] header Header of .qvm bytecode.
+ * @param[in] bytecode Pointer to bytecode.
  * @return 0 if everything is OK. -1 otherwise. */
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode);
 
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
@@ -378,7 +381,8 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 
     Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
-    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length);
+    vmHeader_t        headerCopy;
+    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &headerCopy);
     if (!header)
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
@@ -409,7 +413,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     vm->compiled = 0; /* no JIT */
     if (!vm->compiled)
     {
-        if (VM_PrepareInterpreter(vm, header) != 0)
+        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
             VM_Free(vm);
             return -1;
@@ -440,24 +444,27 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 }
 
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length)
+                                    int length, vmHeader_t* headerOut)
 {
     int dataLength;
     int i;
     const union {
         const vmHeader_t* h;
         const uint8_t*    v;
-    } header = {.v = bytecode };
+    } header = {.h = headerOut };
 
     Com_Printf("Loading vm file %s...\n", vm->name);
 
-    if (!header.h || !bytecode || length <= (int)sizeof(vmHeader_t) ||
+    if (!bytecode || length <= (int)sizeof(vmHeader_t) ||
         length > VM_MAX_IMAGE_SIZE)
     {
         Com_Printf("Failed.\n");
         return NULL;
     }
 
+    /* work on a copy: the image belongs to the caller (and might be const) */
+    Com_Memcpy(headerOut, bytecode, sizeof(vmHeader_t));
+
     if (LittleLong(header.h->vmMagic) == VM_MAGIC)
     {
         /* byte swap the header */
@@ -516,7 +523,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     Com_Memset(vm->dataBase, 0, vm->dataAlloc);
 
     /* copy the intialized data */
-    Com_Memcpy(vm->dataBase, header.v + header.h->dataOffset,
+    Com_Memcpy(vm->dataBase, bytecode + header.h->dataOffset,
                header.h->dataLength + header.h->litLength);
 
     /* byte swap the longs */
@@ -695,14 +702,15 @@ static int LittleEndianToHost(const uint8_t b[4])
     return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode)
 {
-    int      op;
-    int      byte_pc;
-    int      int_pc;
-    uint8_t* code;
-    int      instruction;
-    int*     codeBase;
+    int            op;
+    int            byte_pc;
+    int            int_pc;
+    const uint8_t* code;
+    int            instruction;
+    int*           codeBase;
 
     vm->codeBase = (uint8_t*)Com_malloc(
         vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
@@ -713,14 +721,13 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, (uint8_t*)header + header->codeOffset,
-               vm->codeLength);
+    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset, vm->codeLength);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
     int_pc = byte_pc = 0;
     instruction      = 0;
-    code             = (uint8_t*)header + header->codeOffset;
+    code             = bytecode + header->codeOffset;
     codeBase         = (int*)vm->codeBase;
 
     /* Copy and expand instructions to words while
-- 
2.43.0


From 273f2a5b85759769a2bfbc7f406996407ee71640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 03/80] fix: keep loading and execution inside the code segment

VM_PrepareInterpreter read opcodes and operands behind the end of the code
(the length check came after the access, was off by one and ignored
operands), and a program without a final LEAVE ran on into whatever memory
followed the expanded code. Reject such images and put an OP_UNDEF behind
the last instruction.
---
 src/vm/vm.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1f19931..9bdf48a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -712,8 +712,10 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
     int            instruction;
     int*           codeBase;
 
-    vm->codeBase = (uint8_t*)Com_malloc(
-        vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
+    /* we're now int aligned; one more int so that there is always an (invalid)
+     * instruction behind the last one */
+    vm->codeBase = (uint8_t*)Com_malloc(((size_t)vm->codeLength + 1) * 4, vm,
+                                        VM_ALLOC_CODE_SEC);
     if (!vm->codeBase)
     {
         Com_Error(VM_MALLOC_FAILED,
@@ -721,7 +723,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset, vm->codeLength);
+    /* running off the end of the code has to hit OP_UNDEF (0) */
+    Com_Memset(vm->codeBase, 0, ((size_t)vm->codeLength + 1) * 4);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
@@ -737,14 +740,14 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         vm->instructionPointers[instruction] = int_pc;
         instruction++;
 
-        op               = (int)code[byte_pc];
-        codeBase[int_pc] = op;
-        if (byte_pc > header->codeLength)
+        if (byte_pc >= header->codeLength)
         {
             Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                       "VM_PrepareInterpreter: pc > header->codeLength");
             return -1;
         }
+        op               = (int)code[byte_pc];
+        codeBase[int_pc] = op;
 
         byte_pc++;
         int_pc++;
@@ -773,11 +776,23 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_GTF:
         case OP_GEF:
         case OP_BLOCK_COPY:
+            if (header->codeLength - byte_pc < 4)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: truncated operand");
+                return -1;
+            }
             codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
             byte_pc += 4;
             int_pc++;
             break;
         case OP_ARG:
+            if (header->codeLength - byte_pc < 1)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: truncated operand");
+                return -1;
+            }
             codeBase[int_pc] = (int)code[byte_pc];
             byte_pc++;
             int_pc++;
-- 
2.43.0


From f6ba8ade24f39a1a8bef3f486d639bd3c1b750d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 04/80] fix: off by one in the check of branch targets

A branch to instruction number instructionCount passed the check and read
one element behind instructionPointers.
---
 src/vm/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9bdf48a..41eeb54 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -839,7 +839,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_LEF:
         case OP_GTF:
         case OP_GEF:
-            if (codeBase[int_pc] < 0 || codeBase[int_pc] > vm->instructionCount)
+            if (codeBase[int_pc] < 0 ||
+                codeBase[int_pc] >= vm->instructionCount)
             {
                 Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
                           "VM_PrepareInterpreter: Jump to invalid "
-- 
2.43.0


From 44e968a92c20db0c05c3c530ae0b29e78610c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 05/80] fix: mask every access to the program stack

The program stack pointer is under the control of the bytecode (operands of
ENTER and LEAVE, recursion depth) and it may start below zero for images with
a small data segment. VM_Call, OP_CALL, OP_LEAVE and the marshalling of
system call arguments used it without the data mask, reading and writing host
memory outside of the sandbox.
---
 src/vm/vm.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 41eeb54..bd02c99 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -932,11 +932,13 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 
     for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
     {
-        *(int*)&image[programStack + 8 + arg * 4] = args[arg];
+        *(int*)&image[(programStack + 8 + arg * 4) & dataMask] = args[arg];
     }
 
-    *(int*)&image[programStack + 4] = 0; /* return stack */
-    *(int*)&image[programStack] = -1;    /* will terminate the loop on return */
+    /* return stack */
+    *(int*)&image[(programStack + 4) & dataMask] = 0;
+    /* will terminate the loop on return */
+    *(int*)&image[programStack & dataMask] = -1;
 
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
@@ -1102,7 +1104,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_CALL:
             /* save current program counter */
-            *(int*)&image[programStack] = programCounter;
+            *(int*)&image[programStack & dataMask] = programCounter;
 
             /* jump to the location on the stack */
             programCounter = r0;
@@ -1120,38 +1122,34 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save the stack to allow recursive VM entry */
                 vm->programStack = programStack - 4;
 #ifdef DEBUG_VM
-                int stomped = *(int*)&image[programStack + 4];
+                int stomped = *(int*)&image[(programStack + 4) & dataMask];
 #endif
-                *(int*)&image[programStack + 4] = -1 - programCounter;
+                *(int*)&image[(programStack + 4) & dataMask] =
+                    -1 - programCounter;
 
                 /* the vm has ints on the stack, we expect
                    pointers so we might have to convert it */
-                if (sizeof(intptr_t) != sizeof(int))
                 {
                     intptr_t argarr[MAX_VMSYSCALL_ARGS];
-                    int*     imagePtr = (int*)&image[programStack];
                     int      i;
                     for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)
                     {
-                        argarr[i] = *(++imagePtr);
+                        argarr[i] = *(int*)&image[(programStack + 4 + i * 4) &
+                                                  dataMask];
                     }
                     r = vm->systemCall(vm, argarr);
                 }
-                else
-                {
-                    r = vm->systemCall(vm, (intptr_t*)&image[programStack + 4]);
-                }
 
 #ifdef DEBUG_VM
                 /* this is just our stack frame pointer, only needed
                    for debugging */
-                *(int*)&image[programStack + 4] = stomped;
+                *(int*)&image[(programStack + 4) & dataMask] = stomped;
 #endif
 
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack];
+                programCounter      = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1189,7 +1187,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             /* save old stack frame for debugging traces */
-            *(int*)&image[programStack + 4] = programStack + v1;
+            *(int*)&image[(programStack + 4) & dataMask] = programStack + v1;
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
@@ -1212,7 +1210,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             programStack += v1;
 
             /* grab the saved program counter */
-            programCounter = *(int*)&image[programStack];
+            programCounter = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             if (vm_debugLevel)
-- 
2.43.0


From 1cb15f512b1ed488d752d2f2aacb95ae691c2888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 06/80] fix: only return to an instruction behind a call

OP_LEAVE takes the return address from sandbox memory and only checked it
against the code length; after a system call it was not checked at all. A
modified return address may point at an operand (executed as an instruction
with unchecked branch targets) or behind the code, so the interpreter left
the code segment.
---
 src/vm/vm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index bd02c99..74fc8be 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1112,6 +1112,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             if (programCounter < 0) /* system call */
             {
                 int r;
+                int returnCounter = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1149,7 +1150,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack & dataMask];
+                programCounter      = returnCounter;
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1224,7 +1225,10 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             {
                 goto done;
             }
-            else if ((unsigned)programCounter >= (unsigned)vm->codeLength)
+            /* the return address is in reach of the bytecode: only go back to
+             * the instruction behind an OP_CALL, never into an operand */
+            else if (programCounter < 1 || programCounter > vm->codeLength ||
+                     codeImage[programCounter - 1] != OP_CALL)
             {
                 Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                           "VM program counter out of range in OP_LEAVE");
-- 
2.43.0


From 3173bd30c0c841647747be797f51e50a54ee527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 07/80] fix: range checks wrapped around for huge or negative
 lengths

address + length overflows for a negative length (converted to size_t), so
VM_MemoryRangeValid and OP_BLOCK_COPY accepted it and the host copied or set
memory far outside of the sandbox.
---
 src/vm/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 74fc8be..1267e91 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -659,7 +659,8 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     }
     const unsigned dest     = vmAddr;
     const unsigned dataMask = vm->dataMask;
-    if ((dest & dataMask) != dest || ((dest + len) & dataMask) != dest + len)
+    if ((dest & dataMask) != dest || len > dataMask ||
+        ((dest + len) & dataMask) != dest + len)
     {
         Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
         return -1;
@@ -685,7 +686,7 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
 {
     unsigned int dataMask = vm->dataMask;
 
-    if ((dest & dataMask) != dest || (src & dataMask) != src ||
+    if ((dest & dataMask) != dest || (src & dataMask) != src || n > dataMask ||
         ((dest + n) & dataMask) != dest + n ||
         ((src + n) & dataMask) != src + n)
     {
-- 
2.43.0


From 86717dd531561d2ee0c75f554456911baa17fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 08/80] fix: integer division by zero in the bytecode killed
 the host

OP_DIVI, OP_DIVU, OP_MODI and OP_MODU executed the division unchecked: a zero
divisor, or INT_MIN / -1, raises SIGFPE in the host process. Report an error
for zero, let INT_MIN / -1 wrap like the other integer instructions.
---
 src/vm/vm.c | 29 +++++++++++++++++++++++++++--
 src/vm/vm.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1267e91..99bbc73 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1474,18 +1474,43 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             opStack[opStackOfs] = r1 - r0;
             DISPATCH();
         goto_OP_DIVI:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVIDE_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 / r0;
+            /* x / -1 separately: INT_MIN / -1 traps as well */
+            opStack[opStackOfs] = (r0 == -1) ? (int)(0U - (unsigned)r1) : r1 / r0;
             DISPATCH();
         goto_OP_DIVU:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVIDE_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) / ((unsigned)r0);
             DISPATCH();
         goto_OP_MODI:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVIDE_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 % r0;
+            opStack[opStackOfs] = (r0 == -1) ? 0 : r1 % r0;
             DISPATCH();
         goto_OP_MODU:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVIDE_BY_ZERO,
+                          "Division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);
             DISPATCH();
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 959e2eb..4c6d1dc 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -77,6 +77,7 @@ typedef enum {
     VM_MALLOC_FAILED               = -13, /**< Not enough memory */
     VM_BAD_INSTRUCTION             = -14, /**< Unknown OP code in bytecode */
     VM_NOT_LOADED                  = -15, /**< VM not loaded */
+    VM_DIVIDE_BY_ZERO              = -16, /**< Integer division by zero */
 } vmErrorCode_t;
 
 /** VM alloc type. This is just an information passed to the host malloc
-- 
2.43.0


From 8d904989045b350c7f7e0fbb1c65415f0c6b199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 09/80] fix: restore the program stack when a call fails

If the bytecode failed after a system call, vm->programStack kept the value
of the aborted call: every failing call took a piece of the program stack
until calls overwrote the data of the bytecode. A nested call also cleared
currentlyInterpreting while the outer call was still running.
---
 src/vm/vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 99bbc73..dbb728f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -541,6 +541,8 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     int      args[MAX_VMMAIN_ARGS];
     va_list  ap;
     int      i;
+    int      programStack;
+    int      interpreting;
 
     if (vm == NULL)
     {
@@ -563,9 +565,14 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     }
     va_end(ap);
 
+    programStack = vm->programStack;
+    interpreting = vm->currentlyInterpreting;
     ++vm->callLevel;
     r = VM_CallInterpreted(vm, args);
     --vm->callLevel;
+    /* if there was an error the interpreter did not clean up */
+    vm->programStack          = programStack;
+    vm->currentlyInterpreting = interpreting;
 
     return r;
 }
-- 
2.43.0


From 3cc98614a1f13089bdab57a44009a295a85049b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 10/80] fix: clear the op stack before a call

With OP_PUSH the bytecode could read what earlier host functions had left on
the stack: the result of a call depended on it, and it leaks host memory
(addresses) into the sandbox.
---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index dbb728f..f30129b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -951,6 +951,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
        not corrupt anything */
+    Com_Memset(stack, 0, sizeof(stack));
     opStack    = PADP(stack, 16);
     *opStack   = 0x0000BEEF;
     opStackOfs = 0;
-- 
2.43.0


From cac4665984ba4718db6485f91b70af7f28ad2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 11/80] fix: VM_Create without system calls left the vm
 uninitialized

Calling VM_Free (as the q3vm tool does after a failed VM_Create) or VM_Call
on it used garbage pointers.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f30129b..228d5d7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -372,6 +372,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         Com_Error(VM_INVALID_POINTER, "Invalid vm pointer");
         return -1;
     }
+    Com_Memset(vm, 0, sizeof(vm_t));
     if (!systemCalls)
     {
         vm->lastError = VM_NO_SYSCALL_CALLBACK;
@@ -379,7 +380,6 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         return -1;
     }
 
-    Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
     vmHeader_t        headerCopy;
     const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &headerCopy);
-- 
2.43.0


From d551af2974b01734def4ef28f0a533b805d76f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 12/80] fix: keep lastError when VM_Create fails

README.md: the error code is stored in vm_t::lastError. VM_Create cleared it
again with VM_Free, and did not set it if the code segment allocation failed.
---
 src/vm/vm.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 228d5d7..ea3c30c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -290,6 +290,10 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
 static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
                                  const uint8_t* bytecode);
 
+/** Helper function for VM_Create: VM_Free, but keep vm->lastError.
+ * @param[in,out] vm Pointer to virtual machine. */
+static void VM_FreeOnError(vm_t* vm);
+
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
  * @param[in] args Arguments for function call.
@@ -387,7 +391,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
         Com_Error(vm->lastError, "Failed to load bytecode");
-        VM_Free(vm);
+        VM_FreeOnError(vm);
         return -1;
     }
 
@@ -404,7 +408,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         vm->lastError = VM_MALLOC_FAILED;
         Com_Error(vm->lastError,
                   "Instr. pointer malloc failed: out of memory?");
-        VM_Free(vm);
+        VM_FreeOnError(vm);
         return -1;
     }
 
@@ -415,7 +419,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     {
         if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
-            VM_Free(vm);
+            VM_FreeOnError(vm);
             return -1;
         }
     }
@@ -621,6 +625,14 @@ void VM_Free(vm_t* vm)
     Com_Memset(vm, 0, sizeof(*vm));
 }
 
+static void VM_FreeOnError(vm_t* vm)
+{
+    const vmErrorCode_t lastError = vm->lastError;
+
+    VM_Free(vm);
+    vm->lastError = lastError;
+}
+
 void* VM_ArgPtr(intptr_t vmAddr, vm_t* vm)
 {
     if (!vmAddr)
@@ -726,7 +738,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
                                         VM_ALLOC_CODE_SEC);
     if (!vm->codeBase)
     {
-        Com_Error(VM_MALLOC_FAILED,
+        Com_Error(vm->lastError = VM_MALLOC_FAILED,
                   "Data pointer malloc failed: out of memory?");
         return -1;
     }
-- 
2.43.0


From 5f938531e7b2f9829b1a4267b9cd34920131f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 13/80] fix: DEBUG_VM symbol file buffer

The parser for the .map file expects a terminated string but the buffer was
not, and a buffer allocated by malloc was released with Com_free.
---
 src/vm/vm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index ea3c30c..a4d117f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -348,7 +348,7 @@ static const char* VM_ValueToSymbol(vm_t* vm, int value);
 static void VM_LoadSymbols(vm_t* vm);
 /** Load the file into a malloc'd buffer.
  * @param[in] filepath File to load.
- * @return file content in buffer. Call Com_free() to cleanup. */
+ * @return file content in buffer. Call free() to cleanup. */
 static uint8_t* loadImage(const char* filepath, int* imageSize);
 /** Print a stack trace on OP_ENTER if vm_debugLevel is > 0 */
 static void VM_StackTrace(vm_t* vm, int programCounter, int programStack);
@@ -1751,7 +1751,7 @@ uint8_t* loadImage(const char* filepath, int* size)
     }
     rewind(f);
 
-    image = (uint8_t*)malloc(sz);
+    image = (uint8_t*)malloc(sz + 1); /* one more for a trailing zero */
     if (!image)
     {
         fclose(f);
@@ -1766,7 +1766,8 @@ uint8_t* loadImage(const char* filepath, int* size)
     }
 
     fclose(f);
-    *size = sz;
+    image[sz] = 0;
+    *size     = sz;
     return image;
 }
 
@@ -1996,7 +1997,7 @@ static void VM_LoadSymbols(vm_t* vm)
 
     vm->numSymbols = count;
     Com_Printf("%i symbols parsed from %s\n", count, symbols);
-    Com_free(mapfile.v, NULL, VM_ALLOC_DEBUG);
+    free(mapfile.v);
 }
 
 static void VM_StackTrace(vm_t* vm, int programCounter, int programStack)
-- 
2.43.0


From 1b020153dfe725c06d7453c394692cc6a9e117ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 14/80] fix: DEBUG_VM symbol parser read past an unterminated
 string

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index a4d117f..0bc539b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1872,6 +1872,10 @@ static char* COM_Parse(char** data_p)
             c = *data++;
             if (c == '\"' || !c)
             {
+                if (!c)
+                {
+                    data--; /* stay on the terminating zero */
+                }
                 com_token[len] = 0;
                 *data_p        = (char*)data;
                 return com_token;
-- 
2.43.0


From f26a1f7bffaff50e816250f167ceecf06cde6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 15/80] fix: q3asm: report an output file that could not be
 written

---
 q3asm/cmdlib.c | 9 +++++++++
 q3asm/cmdlib.h | 1 +
 q3asm/q3asm.c  | 4 ++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 592f89e..60d6049 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -683,6 +683,15 @@ void SafeWrite(FILE* f, const void* buffer, int count)
         Error("File write failure");
 }
 
+void SafeCloseWrite(FILE* f)
+{
+    int failed;
+
+    failed = ferror(f);
+    if (fclose(f) != 0 || failed)
+        Error("File write failure");
+}
+
 /*
 ==============
 FileExists
diff --git a/q3asm/cmdlib.h b/q3asm/cmdlib.h
index 4a4c131..4c09d2a 100644
--- a/q3asm/cmdlib.h
+++ b/q3asm/cmdlib.h
@@ -96,6 +96,7 @@ FILE* SafeOpenWrite(const char* filename);
 FILE* SafeOpenRead(const char* filename);
 void SafeRead(FILE* f, void* buffer, int count);
 void SafeWrite(FILE* f, const void* buffer, int count);
+void SafeCloseWrite(FILE* f);
 
 int LoadFile(const char* filename, void** bufferptr);
 int LoadFileBlock(const char* filename, void** bufferptr);
diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 00982df..cd992ee 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1434,7 +1434,7 @@ static void WriteMapFile(void)
             fprintf(f, "%i %8x %s\n", seg, s->value, s->name);
         }
     }
-    fclose(f);
+    SafeCloseWrite(f);
 }
 
 /*
@@ -1511,7 +1511,7 @@ static void WriteVmFile(void)
         SafeWrite(f, &segment[JTRGSEG].image, segment[JTRGSEG].imageUsed);
     }
 
-    fclose(f);
+    SafeCloseWrite(f);
 }
 
 /*
-- 
2.43.0


From 9dd2deebd60d29d534a2ed21eda724f6991d0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 16/80] fix: q3asm: exit status was the error count modulo 256

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index cd992ee..6ecf24a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1778,5 +1778,5 @@ int main(int argc, char** argv)
     end = I_FloatTime();
     report("%5.0f seconds elapsed\n", end - start);
 
-    return errorCount;
+    return errorCount ? 1 : 0;
 }
-- 
2.43.0


From 59dfb6e17a2aceddde6cc836114c7c605125eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 17/80] fix: q3asm: endless loop on a line that is too long

---
 q3asm/q3asm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 6ecf24a..1dacd64 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -691,8 +691,8 @@ static char* ExtractLine(char* data)
 
     if ((p - q) >= MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH");
-        return data;
+        CodeError("MAX_LINE_LENGTH\n");
+        return (*p == '\n') ? p + 1 : p;
     }
 
     memcpy(lineBuffer, data, (p - data));
-- 
2.43.0


From 13251852f43b154f0e74d2c26fca086f75867441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 18/80] fix: q3asm: skip and align could leave the segment

---
 q3asm/q3asm.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 1dacd64..676a691 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -540,6 +540,23 @@ static void EmitInt(segment_t* seg, int v)
     seg->imageUsed += 4;
 }
 
+/*
+============
+CheckSegmentSpace
+
+Only the size of the bss segment counts, it has no contents in the image
+============
+*/
+static void CheckSegmentSpace(segment_t* seg, int size)
+{
+    int limit = (seg == &segment[BSSSEG]) ? 0x3fffffff : VM_MAX_IMAGE_SIZE;
+
+    if (size < 0 || size > limit - seg->imageUsed)
+    {
+        Error("VM_MAX_IMAGE_SIZE");
+    }
+}
+
 /*
 ============
 DefineSymbol
@@ -1145,6 +1162,7 @@ ASM(ALIGN)
     {
         STAT("ALIGN");
         v = ParseValue();
+        CheckSegmentSpace(currentSegment, v - 1);
         currentSegment->imageUsed =
             (currentSegment->imageUsed + v - 1) & ~(v - 1);
         return 1;
@@ -1159,6 +1177,7 @@ ASM(SKIP)
     {
         STAT("SKIP");
         v = ParseValue();
+        CheckSegmentSpace(currentSegment, v);
         currentSegment->imageUsed += v;
         return 1;
     }
-- 
2.43.0


From 6e08904dd35240a77b1198f900ed87cc8056d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 19/80] fix: q3asm: list of input files overflowed

---
 q3asm/q3asm.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 676a691..c88c4f4 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1610,6 +1610,22 @@ static void Assemble(void)
     }
 }
 
+/*
+=============
+AddAsmFile
+
+=============
+*/
+static void AddAsmFile(const char* filename)
+{
+    if (numAsmFiles >= MAX_ASM_FILES)
+    {
+        Error("MAX_ASM_FILES");
+    }
+    asmFileNames[numAsmFiles] = copystring(filename);
+    numAsmFiles++;
+}
+
 /*
 =============
 ParseOptionFile
@@ -1644,8 +1660,7 @@ static void ParseOptionFile(const char* filename)
             continue;
         }
 
-        asmFileNames[numAsmFiles] = copystring(com_token);
-        numAsmFiles++;
+        AddAsmFile(com_token);
     }
 }
 
@@ -1768,8 +1783,7 @@ int main(int argc, char** argv)
     // the rest of the command line args are asm files
     for (; i < argc; i++)
     {
-        asmFileNames[numAsmFiles] = copystring(argv[i]);
-        numAsmFiles++;
+        AddAsmFile(argv[i]);
     }
     // In some case it Segfault without this check
     if (numAsmFiles == 0)
-- 
2.43.0


From ec7d8ecd6beb275a8dcd406b41e590520bc55d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 20/80] fix: q3asm: option file parser ran past an open quote
 and long tokens

---
 q3asm/cmdlib.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 60d6049..dd30480 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -491,11 +491,19 @@ skipwhite:
         do
         {
             c = *data++;
+            if (c == 0)
+            {
+                Error("Missing closing quote");
+            }
             if (c == '\"')
             {
                 com_token[len] = 0;
                 return data;
             }
+            if (len >= (int)sizeof(com_token) - 1)
+            {
+                Error("Token too long");
+            }
             com_token[len] = c;
             len++;
         } while (1);
@@ -513,6 +521,10 @@ skipwhite:
     // parse a regular word
     do
     {
+        if (len >= (int)sizeof(com_token) - 1)
+        {
+            Error("Token too long");
+        }
         com_token[len] = c;
         data++;
         len++;
-- 
2.43.0


From 81c2e6cc8c0130a97198a3e56017c75fad521104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 21/80] fix: q3asm: failing allocations went unnoticed

---
 q3asm/cmdlib.c | 21 +++++++++++++++++----
 q3asm/cmdlib.h |  1 +
 q3asm/q3asm.c  | 14 +++++++++-----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index dd30480..c78e00e 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -22,6 +22,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 // cmdlib.c
 
 #include "cmdlib.h"
+#include <limits.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 
@@ -356,10 +357,20 @@ char* ExpandPathAndArchive(const char* path)
     return expanded;
 }
 
+void* SafeMalloc(size_t size)
+{
+    void* p;
+
+    p = malloc(size);
+    if (!p)
+        Error("Out of memory");
+    return p;
+}
+
 char* copystring(const char* s)
 {
     char* b;
-    b = malloc(strlen(s) + 1);
+    b = SafeMalloc(strlen(s) + 1);
     strcpy(b, s);
     return b;
 }
@@ -731,9 +742,11 @@ int LoadFile(const char* filename, void** bufferptr)
     int   length;
     void* buffer;
 
-    f                       = SafeOpenRead(filename);
-    length                  = Q_filelength(f);
-    buffer                  = malloc(length + 1);
+    f      = SafeOpenRead(filename);
+    length = Q_filelength(f);
+    if (length < 0 || length == INT_MAX)
+        Error("Error reading %s", filename);
+    buffer                  = SafeMalloc(length + 1);
     ((char*)buffer)[length] = 0;
     SafeRead(f, buffer, length);
     fclose(f);
diff --git a/q3asm/cmdlib.h b/q3asm/cmdlib.h
index 4c09d2a..2b40aea 100644
--- a/q3asm/cmdlib.h
+++ b/q3asm/cmdlib.h
@@ -95,6 +95,7 @@ int CheckParm(const char* check);
 FILE* SafeOpenWrite(const char* filename);
 FILE* SafeOpenRead(const char* filename);
 void SafeRead(FILE* f, void* buffer, int count);
+void* SafeMalloc(size_t size);
 void SafeWrite(FILE* f, const void* buffer, int count);
 void SafeCloseWrite(FILE* f);
 
diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index c88c4f4..290255a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -242,13 +242,17 @@ static void hashtable_init(hashtable_t* H, int buckets)
 {
     H->buckets = buckets;
     H->table   = calloc(H->buckets, sizeof(*(H->table)));
+    if (!H->table)
+    {
+        Error("Out of memory");
+    }
 }
 
 static hashtable_t* hashtable_new(int buckets)
 {
     hashtable_t* H;
 
-    H = malloc(sizeof(hashtable_t));
+    H = SafeMalloc(sizeof(hashtable_t));
     hashtable_init(H, buckets);
     return H;
 }
@@ -264,7 +268,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
     if (*hb == 0)
     {
         /* Empty bucket.  Create new one. */
-        *hb = calloc(1, sizeof(**hb));
+        *hb = SafeMalloc(sizeof(**hb));
         hc  = *hb;
     }
     else
@@ -274,7 +278,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
             ;
         if (hc)
         {
-            hc->next = calloc(1, sizeof(*hc));
+            hc->next = SafeMalloc(sizeof(*hc));
             hc       = hc->next;
         }
     }
@@ -395,7 +399,7 @@ static void sort_symbols()
     for (elems = 0, s = symbols; s; s = s->next, elems++) /* nop */
         ;
 
-    symlist = malloc(elems * sizeof(symbol_t*));
+    symlist = SafeMalloc(elems * sizeof(symbol_t*));
     for (i = 0, s = symbols; s; s = s->next, i++)
     {
         symlist[i] = s;
@@ -591,7 +595,7 @@ static void DefineSymbol(char* sym, int value)
         return;
     }
 
-    s          = malloc(sizeof(*s));
+    s          = SafeMalloc(sizeof(*s));
     s->next    = NULL;
     s->name    = copystring(sym);
     s->hash    = hash;
-- 
2.43.0


From 52d12625f7e0c09d73b49021be35fb29983a2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 22/80] fix: q3asm: bucket index could be negative, number of
 buckets zero

---
 q3asm/q3asm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 290255a..eab146e 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -263,7 +263,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 {
     hashchain_t *hc, **hb;
 
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned int)hashvalue % H->buckets);
     hb        = &(H->table[hashvalue]);
     if (*hb == 0)
     {
@@ -291,7 +291,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 
 static hashchain_t* hashtable_get(hashtable_t* H, int hashvalue)
 {
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned int)hashvalue % H->buckets);
     return (H->table[hashvalue]);
 }
 
@@ -347,7 +347,7 @@ static int hashtable_symbol_exists(hashtable_t* H, int hash, char* sym)
     hashchain_t* hc;
     symbol_t*    s;
 
-    hash = (abs(hash) % H->buckets);
+    hash = ((unsigned int)hash % H->buckets);
     hc   = H->table[hash];
     if (hc == 0)
     {
@@ -1754,6 +1754,10 @@ int main(int argc, char** argv)
             }
             i++;
             symtablelen = atoiNoCap(argv[i]);
+            if (symtablelen <= 0)
+            {
+                Error("-b requires a positive number");
+            }
             continue;
         }
 
-- 
2.43.0


From cd88370848f6777e08d248da84d0e96000ba0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 23/80] fix: q3asm: initialised objects with char and other
 members were split

---
 q3asm/q3asm.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index eab146e..5ef9f01 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -867,15 +867,28 @@ Note that the lit segment is read-write in the VM, so strings
 aren't read only as in some architectures.
 ==============
 */
+static qboolean objectStarted; /* Values follow the most recent label. */
+static int      currentAlign;  /* Alignment of the object being defined. */
+
 static void HackToSegment(segmentName_t seg)
 {
-    if (currentSegment == &segment[seg])
+    if (currentSegment == &segment[seg] || objectStarted)
     {
+        /* An object is not split, even if it mixes chars and other values. */
+        objectStarted = qtrue;
         return;
     }
+    objectStarted = qtrue;
 
     currentSegment = &segment[seg];
-    if (passNumber == 0)
+    if (currentAlign > 1)
+    {
+        CheckSegmentSpace(currentSegment, currentAlign - 1);
+        currentSegment->imageUsed =
+            (currentSegment->imageUsed + currentAlign - 1) &
+            ~(currentAlign - 1);
+    }
+    if (passNumber == 0 && lastSymbol)
     {
         lastSymbol->segment = currentSegment;
         lastSymbol->value   = currentSegment->imageUsed;
@@ -1086,6 +1099,7 @@ ASM(CODE)
     {
         STAT("CODE");
         currentSegment = &segment[CODESEG];
+        objectStarted  = qfalse;
         return 1;
     }
     return 0;
@@ -1097,6 +1111,7 @@ ASM(BSS)
     {
         STAT("BSS");
         currentSegment = &segment[BSSSEG];
+        objectStarted  = qfalse;
         return 1;
     }
     return 0;
@@ -1108,6 +1123,7 @@ ASM(DATA)
     {
         STAT("DATA");
         currentSegment = &segment[DATASEG];
+        objectStarted  = qfalse;
         return 1;
     }
     return 0;
@@ -1119,6 +1135,7 @@ ASM(LIT)
     {
         STAT("LIT");
         currentSegment = &segment[LITSEG];
+        objectStarted  = qfalse;
         return 1;
     }
     return 0;
@@ -1169,6 +1186,7 @@ ASM(ALIGN)
         CheckSegmentSpace(currentSegment, v - 1);
         currentSegment->imageUsed =
             (currentSegment->imageUsed + v - 1) & ~(v - 1);
+        currentAlign = v;
         return 1;
     }
     return 0;
@@ -1183,6 +1201,7 @@ ASM(SKIP)
         v = ParseValue();
         CheckSegmentSpace(currentSegment, v);
         currentSegment->imageUsed += v;
+        objectStarted = qtrue;
         return 1;
     }
     return 0;
@@ -1234,6 +1253,7 @@ ASM(LABEL)
     {
         STAT("LABEL");
         Parse();
+        objectStarted = qfalse;
         if (currentSegment == &segment[CODESEG])
         {
             DefineSymbol(token, instructionCount);
-- 
2.43.0


From be15a3fe437e95916fbfdb3cdc28050850c7148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 24/80] fix: q3asm: stack symbols were listed under the wrong
 segment

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 5ef9f01..811852c 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1620,6 +1620,7 @@ static void Assemble(void)
     }
 
     // reserve the stack in bss
+    currentSegment = &segment[BSSSEG];
     DefineSymbol("_stackStart", segment[BSSSEG].imageUsed);
     segment[BSSSEG].imageUsed += stackSize;
     DefineSymbol("_stackEnd", segment[BSSSEG].imageUsed);
-- 
2.43.0


From 66f9cdc10fca46b20483004959b2fc3973434cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 25/80] fix: q3asm: symbol order of values far apart

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 811852c..e948463 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -376,7 +376,7 @@ static int symlist_cmp(const void* e1, const void* e2)
     a = *(const symbol_t**)e1;
     b = *(const symbol_t**)e2;
     // crumb("Symbol comparison (1) %d  to  (2) %d\n", a->value, b->value);
-    return (a->value - b->value);
+    return (a->value > b->value) - (a->value < b->value);
 }
 
 /*
-- 
2.43.0


From e1bc1ae53cb3f88f44f24aa1cc881ee90aac51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 26/80] fix: q3asm: file name buffers overflowed

---
 q3asm/q3asm.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index e948463..d13ecb3 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1635,6 +1635,21 @@ static void Assemble(void)
     }
 }
 
+/*
+=============
+CheckFilename
+
+There has to be room for an extension
+=============
+*/
+static void CheckFilename(const char* filename)
+{
+    if (!filename[0] || strlen(filename) > MAX_OS_PATH - 16)
+    {
+        Error("Bad file name: %s", filename);
+    }
+}
+
 /*
 =============
 AddAsmFile
@@ -1643,6 +1658,7 @@ AddAsmFile
 */
 static void AddAsmFile(const char* filename)
 {
+    CheckFilename(filename);
     if (numAsmFiles >= MAX_ASM_FILES)
     {
         Error("MAX_ASM_FILES");
@@ -1662,6 +1678,7 @@ static void ParseOptionFile(const char* filename)
     char  expanded[MAX_OS_PATH];
     char *text, *text_p;
 
+    CheckFilename(filename);
     strcpy(expanded, filename);
     DefaultExtension(expanded, ".q3asm");
     LoadFile(expanded, (void**)&text);
@@ -1680,6 +1697,7 @@ static void ParseOptionFile(const char* filename)
             text_p = COM_Parse(text_p);
             if (text_p)
             {
+                CheckFilename(com_token);
                 strcpy(outputFilename, com_token);
             }
             continue;
@@ -1751,6 +1769,7 @@ int main(int argc, char** argv)
             }
             /* Timbo of Tremulous pointed out -o not working; stock ID q3asm
              * folded in the change. Yay. */
+            CheckFilename(argv[i + 1]);
             strcpy(outputFilename, argv[i + 1]);
             i++;
             continue;
-- 
2.43.0


From 0b834f8a886ed5762878e50ba6a3392267739531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:49 +0000
Subject: [PATCH 27/80] fix: casts to unsigned char and unsigned short did not
 cut off the upper bits

---
 q3asm/opstrings.h |  4 ++--
 q3asm/q3asm.c     | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/q3asm/opstrings.h b/q3asm/opstrings.h
index 696340c..283dd59 100644
--- a/q3asm/opstrings.h
+++ b/q3asm/opstrings.h
@@ -77,8 +77,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 { "CVUP4", OP_IGNORE },
 { "CVUU4", OP_IGNORE },
 
-{ "CVUU1", OP_IGNORE },
-{ "CVUU2", OP_IGNORE },
+{ "CVUU1", OP_BAND },
+{ "CVUU2", OP_BAND },
 
 { "NEGF4", OP_NEGF },
 { "NEGI4", OP_NEGI },
diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index d13ecb3..d2b6a8a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1313,6 +1313,16 @@ static void AssembleLine(void)
                 return; // we ignore most conversions
             }
 
+            // narrowing an unsigned value cuts off the upper bits
+            if (op->opcode == OP_BAND && token[0] == 'C')
+            {
+                EmitByte(&segment[CODESEG], OP_CONST);
+                EmitInt(&segment[CODESEG], token[4] == '1' ? 0xff : 0xffff);
+                EmitByte(&segment[CODESEG], OP_BAND);
+                instructionCount += 2;
+                return;
+            }
+
             // sign extensions need to check next parm
             opcode = op->opcode;
             if (opcode == OP_SEX8)
-- 
2.43.0


From be6d8d519fdfabed4d29686ad8503250b3e3dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 28/80] fix: q3asm: a file size that could not be determined
 was taken for 0

---
 q3asm/cmdlib.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index c78e00e..4e497f2 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -644,9 +644,11 @@ int Q_filelength(FILE* f)
     int end;
 
     pos = ftell(f);
-    fseek(f, 0, SEEK_END);
+    if (pos < 0 || fseek(f, 0, SEEK_END) != 0)
+        return -1;
     end = ftell(f);
-    fseek(f, pos, SEEK_SET);
+    if (fseek(f, pos, SEEK_SET) != 0)
+        return -1;
 
     return end;
 }
-- 
2.43.0


From 83e275bd9e05b91d1bf946b1d167e731620c3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 29/80] fix: q3asm: crash on input that does not name a segment
 first

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index d2b6a8a..e58377d 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1602,6 +1602,7 @@ static void Assemble(void)
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
+        currentSegment   = &segment[CODESEG];
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From 54f03d5f1457566cb9760a530b7c172f51ea6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 30/80] fix: rcc: negative enumeration constants were positive
 in constant expressions

---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index d59c31b..034a3ea 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -195,6 +195,8 @@ Tree consttree(unsigned n, Type ty) {
 	if (isarray(ty))
 		ty = atop(ty);
 	else assert(isint(ty));
+	if (ty->op == INT)
+		return cnsttree(ty, (long)(int)n);
 	return cnsttree(ty, (unsigned long)n);
 }
 static Tree cmptree(int op, Tree l, Tree r) {
-- 
2.43.0


From 80f6b8f94367bc807f429db4acb78bf52e1de0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 31/80] fix: rcc: constant comparisons of unsigned values with
 0 were refused as constants

---
 lcc/src/simp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index ea26ab6..080c6d8 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -411,24 +411,24 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case GE+F: cfoldcnst(F,d,>=); break;
 		case GE+I: cfoldcnst(I,i,>=); break;
 		case GE+U:
-			geu(l,r,1);	/* l >= 0 => (l,1) */
 			cfoldcnst(U,u,>=);
+			geu(l,r,1);	/* l >= 0 => (l,1) */
 			if (l->op == CNST+U && l->u.v.u == 0)	/* 0 >= r => r == 0 */
 				return eqtree(EQ, r, l);
 			break;
 		case GT+F: cfoldcnst(F,d, >); break;
 		case GT+I: cfoldcnst(I,i, >); break;
 		case GT+U:
-			geu(r,l,0);	/* 0 > r => (r,0) */
 			cfoldcnst(U,u, >);
+			geu(r,l,0);	/* 0 > r => (r,0) */
 			if (r->op == CNST+U && r->u.v.u == 0)	/* l > 0 => l != 0 */
 				return eqtree(NE, l, r);
 			break;
 		case LE+F: cfoldcnst(F,d,<=); break;
 		case LE+I: cfoldcnst(I,i,<=); break;
 		case LE+U:
-			geu(r,l,1);	/* 0 <= r => (r,1) */
 			cfoldcnst(U,u,<=);
+			geu(r,l,1);	/* 0 <= r => (r,1) */
 			if (r->op == CNST+U && r->u.v.u == 0)	/* l <= 0 => l == 0 */
 				return eqtree(EQ, l, r);
 			break;
@@ -457,8 +457,8 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case LT+F: cfoldcnst(F,d, <); break;
 		case LT+I: cfoldcnst(I,i, <); break;
 		case LT+U:
-			geu(l,r,0);	/* l < 0 => (l,0) */
 			cfoldcnst(U,u, <);
+			geu(l,r,0);	/* l < 0 => (l,0) */
 			if (l->op == CNST+U && l->u.v.u == 0)	/* 0 < r => r != 0 */
 				return eqtree(NE, r, l);
 			break;
-- 
2.43.0


From 8bdb74bc7b9890a7aa3817e56bd7b9e98925fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 32/80] fix: rcc: constant remainder of a division by 1 was
 refused as a constant

---
 lcc/src/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 080c6d8..7263e3f 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -463,13 +463,13 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 				return eqtree(NE, r, l);
 			break;
 		case MOD+I:
-			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
 				break;
 			xfoldcnst(I,i,%,divi);
+			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
+				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
 			break;
 		case MOD+U:		
 			if (r->op == CNST+U && ispow2(r->u.v.u)) /* l%2^n => l&(2^n-1) */
-- 
2.43.0


From 0ccf9aa8cfd5e0ed8190772196efa3d778d5334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 33/80] fix: rcc: initialised bit-fields were laid out for a
 big endian machine

---
 lcc/src/bytecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 871056a..c7bfa1d 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -331,7 +331,7 @@ Interface bytecodeIR = {
 	{4, 4, 0},	/* long double */		// JDC: don't ever emit 8 byte double code
 	{4, 4, 0},	/* T* */
 	{0, 4, 0},	/* struct */
-	0,		/* little_endian */
+	1,		/* little_endian */
 	0,		/* mulops_calls */
 	0,		/* wants_callb */
 	0,		/* wants_argb */
-- 
2.43.0


From f600017fd417ec29b4fddee57e8a085e781014ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:45 +0000
Subject: [PATCH 34/80] fix: q3asm: refused long source lines in comments

---
 q3asm/q3asm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index e58377d..e990d17 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -712,7 +712,12 @@ static char* ExtractLine(char* data)
 
     if ((p - q) >= MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH\n");
+        for (; *q != '\n' && *q && *q <= ' '; q++) /* nop */
+            ;
+        if (*q != ';') /* the compiler copies long source lines to comments */
+        {
+            CodeError("MAX_LINE_LENGTH\n");
+        }
         return (*p == '\n') ? p + 1 : p;
     }
 
-- 
2.43.0


From b15f3da3052112541ae39204367f8d5b723defa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 35/80] fix: rcc: bit-fields used as long or const values lost
 their sign

---
 lcc/src/dag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 420cbe7..af4b2cf 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -349,7 +349,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      else
 		      	p = node(tp->op == INDIR+B ? tp->op : op, l, NULL, NULL); } break;
 	case FIELD: { Tree q = tp->kids[0];
-		      if (tp->type == inttype) {
+		      if (unqual(tp->type)->op == INT) {
 		      	long n = fieldleft(tp->u.field);
 		      	q = shtree(RSH,
 		      		shtree(LSH, q, cnsttree(inttype, n)),
-- 
2.43.0


From 1f563cbb3ab685fdfa7c94f2b1f074367973264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 36/80] fix: rcc: switch on an unsigned value above INT_MAX
 jumped outside its table

Case values are sorted and compared as signed numbers, so the lower bound
of a table has to be checked for an unsigned expression and a table that
starts at 0, too.
---
 lcc/src/stmt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 9c3bdbe..a0c3c37 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -440,8 +440,7 @@ void swcode(Swtch swp, int b[], int lb, int ub) {
 		Symbol table = genident(STATIC,
 			array(voidptype, u - l + 1, 0), GLOBAL);
 		(*IR->defsymbol)(table);
-		if (!isunsigned(swp->sym->type) || v[l] != 0)
-			cmp(LT, swp->sym, v[l], lolab);
+		cmp(LT, swp->sym, v[l], lolab);
 		cmp(GT, swp->sym, v[u], hilab);
 		e = (*optree['-'])(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[l]));
 		if (e->type->size < unsignedptr->size)
-- 
2.43.0


From ddd072a87752ab47d392c14062e1e8b1bfa16c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 37/80] fix: q3asm: initialising a char array overwrote the
 variables behind it

Code like 'char buf[2] = " ";' generates a block copy of 2 bytes. Its
length was rounded up to 4, which overwrote whatever follows the array. The
interpreter copies any number of bytes.
---
 q3asm/q3asm.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index e990d17..85d499a 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1354,15 +1354,6 @@ static void AssembleLine(void)
             {
                 expression = ParseExpression();
 
-                // code like this can generate non-dword block copies:
-                // auto char buf[2] = " ";
-                // we are just going to round up.  This might conceivably
-                // be incorrect if other initialized chars follow.
-                if (opcode == OP_BLOCK_COPY)
-                {
-                    expression = (expression + 3) & ~3;
-                }
-
                 EmitByte(&segment[CODESEG], opcode);
                 EmitInt(&segment[CODESEG], expression);
             }
-- 
2.43.0


From cdc58f69dc8b9e0db8616c24bce2a5ae5043af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 38/80] fix: rcc: crash on x %= 1 and x &= 0 with a condition
 in the operand x

The operands of a compound assignment occur twice in its tree. Do not let
root() take the first occurrence apart.
---
 lcc/src/simp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 7263e3f..ee6dc52 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -271,14 +271,14 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			commute(r,l);
 			identity(r,l,U,u,ones(8*ty->size));
 			if (r->op == CNST+U && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0UL));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0UL));
 			break;
 		case BAND+I:
 			foldcnst(I,i,&);
 			commute(r,l);
 			identity(r,l,I,i,ones(8*ty->size));
 			if (r->op == CNST+I && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			break;
 
 		case MUL+U:
@@ -469,7 +469,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 				break;
 			xfoldcnst(I,i,%,divi);
 			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			break;
 		case MOD+U:		
 			if (r->op == CNST+U && ispow2(r->u.v.u)) /* l%2^n => l&(2^n-1) */
-- 
2.43.0


From 95828a44dd3440f70ebb8b10344dc8b4cbdfebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 39/80] fix: rcc: value of an assignment of a large constant to
 a bit-field

The value was not cut off to the size of the field if the sign bit of the
field is 0.
---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 034a3ea..0b56370 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -322,6 +322,8 @@ Tree asgntree(int op, Tree l, Tree r) {
 				n = r->u.v.i;
 				if (n&(1<<(fieldsize(l->u.field)-1)))
 					n |= ~0UL<<fieldsize(l->u.field);
+				else
+					n &= fieldmask(l->u.field);
 				r = cnsttree(r->type, n);
 			} else
 				r = shtree(RSH,
-- 
2.43.0


From d6f883fb2cd6b6efbc050cdf83504fe3e0006b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 40/80] fix: rcc: crash on an unused conversion of a
 conditional float to unsigned

The operand of the conversion occurs three times in its tree and must not
be taken apart in one of these places. Assign it to a temporary first.
---
 lcc/src/expr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 96eec21..ce9594b 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -588,12 +588,21 @@ Tree cast(Tree p, Type type) {
 					if (isunsigned(dst)) {
 						Type sdst = signedint(dst);
 						Tree c = cast(cnsttree(longdouble, (double)sdst->u.sym->u.limits.max.i + 1), src);
+						Tree q = NULL;
+						if (generic(p->op) != CNST && !needconst) {
+							/* p occurs more than once below */
+							Symbol t1 = temporary(REGISTER, src);
+							q = asgn(t1, p);
+							p = idtree(t1);
+						}
 						p = condtree(
 							simplify(GE, src, p, c),
 							(*optree['+'])(ADD,
 								cast(cast(simplify(SUB, src, p, c), sdst), dst),
 								cast(cnsttree(unsignedlong, (unsigned long)sdst->u.sym->u.limits.max.i + 1), dst)),
 							simplify(CVF, sdst, p, NULL));
+						if (q)
+							p = tree(RIGHT, p->type, q, p);
 					} else
 						p = simplify(CVF, dst, p, NULL);
 					break;
-- 
2.43.0


From 798efb7b0c562f9c56b6de58ab3f78e79639714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 41/80] fix: rcc: value read on one branch of || or && was used
 on the other

In (x += (a || x)) || b the common subexpression x was read only when a was
0. The inner condition did not start a new set of common subexpressions if
it was nested in another && or ||.
---
 lcc/src/dag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index af4b2cf..03c1e73 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -137,6 +137,8 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      assert(tlab == 0 && flab == 0);
 		      if (tp->u.sym)
 		      	addlocal(tp->u.sym);
+		      if (depth > 0)
+		      	reset();
 		      flab = genlabel(2);
 		      listnodes(tp->kids[0], 0, flab);
 		      assert(q && q->op == RIGHT);
-- 
2.43.0


From e494f1a243c29966c083ed4ad42a8607ab954cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 42/80] fix: cpp: output that could not be written went
 unnoticed

The results of write() and dup2() were ignored and a write that only took
part of the data was not continued, so the preprocessor left truncated
output behind and exited with status 0.
---
 lcc/cpp/cpp.c     |  2 ++
 lcc/cpp/cpp.h     |  1 +
 lcc/cpp/include.c |  6 +++---
 lcc/cpp/tokens.c  | 28 ++++++++++++++++++++++++----
 lcc/cpp/unix.c    |  4 +++-
 5 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 5c0cfd7..91ac4b4 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -38,6 +38,8 @@ main(int argc, char **argv)
 	genline();
 	process(&tr);
 	flushout();
+	if (close(1) < 0)
+		error(FATAL, "Can't write output");
 	fflush(stderr);
 	exit(nerrs > 0);
 	return 0;
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index ddd7502..f59d3b8 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -100,6 +100,7 @@ void	*domalloc(int);
 void	dofree(void *);
 void	error(enum errtype, char *, ...);
 void	flushout(void);
+void	putout(char *, int);
 int	fillbuf(Source *);
 int	trigraph(Source *);
 int	foldline(Source *);
diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 5ecd8b3..452ec83 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -92,9 +92,9 @@ doinclude(Tokenrow *trp)
 			break;
 	}
 	if ( Mflag>1 || (!angled&&Mflag==1) ) {
-		write(1,objname,strlen(objname));
-		write(1,iname,strlen(iname));
-		write(1,"\n",1);
+		putout(objname,strlen(objname));
+		putout(iname,strlen(iname));
+		putout("\n",1);
 	}
 	if (fd >= 0) {
 		if (++incdepth > 10)
diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index 964453c..fb1e326 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "cpp.h"
@@ -305,15 +306,15 @@ puttokens(Tokenrow *trp)
 		}
 		if (len>OBS/2) {		/* handle giant token */
 			if (wbp > wbuf)
-				write(1, wbuf, wbp-wbuf);
-			write(1, (char *)p, len);
+				putout(wbuf, wbp-wbuf);
+			putout((char *)p, len);
 			wbp = wbuf;
 		} else {	
 			memcpy(wbp, p, len);
 			wbp += len;
 		}
 		if (wbp >= &wbuf[OBS]) {
-			write(1, wbuf, OBS);
+			putout(wbuf, OBS);
 			if (wbp > &wbuf[OBS])
 				memmove(wbuf, wbuf+OBS, wbp - &wbuf[OBS]);
 			wbp -= OBS;
@@ -328,11 +329,30 @@ void
 flushout(void)
 {
 	if (wbp>wbuf) {
-		write(1, wbuf, wbp-wbuf);
+		putout(wbuf, wbp-wbuf);
 		wbp = wbuf;
 	}
 }
 
+/*
+ * Write to the output; write() may take less than it is given
+ */
+void
+putout(char *p, int len)
+{
+	int n;
+
+	while (len > 0) {
+		n = write(1, p, len);
+		if (n < 0 && errno == EINTR)
+			continue;
+		if (n <= 0)
+			error(FATAL, "Can't write output");
+		p += n;
+		len -= n;
+	}
+}
+
 /*
  * turn a row into just a newline
  */
diff --git a/lcc/cpp/unix.c b/lcc/cpp/unix.c
index bac841d..e533afb 100644
--- a/lcc/cpp/unix.c
+++ b/lcc/cpp/unix.c
@@ -75,7 +75,9 @@ setup(int argc, char **argv)
 #endif
 		if (fdo<0)
 			error(FATAL, "Can't open output file %s", argv[optind+1]);
-		dup2(fdo, 1);
+		if (dup2(fdo, 1) < 0)
+			error(FATAL, "Can't open output file %s", argv[optind+1]);
+		close(fdo);
 	}
 	if(Mflag)
 		setobjname(fp);
-- 
2.43.0


From dc8836e2a66b13713e9c0c90b7d9e453413228b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 43/80] fix: cpp: a failing read was taken for the end of the
 file

---
 lcc/cpp/cpplex.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 8030354..307fcf3 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "cpp.h"
@@ -519,8 +520,11 @@ fillbuf(Source *s)
 	nr = INS/8;
 	if ((char *)s->inl+nr > (char *)s->inb+INS)
 		error(FATAL, "Input buffer overflow");
-	if (s->fd<0 || (n=read(s->fd, (char *)s->inl, INS/8)) <= 0)
-		n = 0;
+	n = 0;
+	if (s->fd>=0)
+		while ((n=read(s->fd, (char *)s->inl, INS/8)) < 0)
+			if (errno != EINTR)
+				error(FATAL, "Can't read %s", s->filename);
 	if ((*s->inp&0xff) == EOB) /* sentinel character appears in input */
 		*s->inp = EOFC;
 	s->inl += n;
-- 
2.43.0


From 96110211894c14bdbe51e158924681cd7b55587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 44/80] fix: cpp: end of a very long comment was missed

When the buffer is compacted after a new line in a long comment, the first
character of the next line was skipped, which hid a "*/" there.
---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 307fcf3..0298b9a 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -436,7 +436,7 @@ gettokens(Tokenrow *trp, int reset)
 				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
-					ip = tp->t+1;
+					ip = tp->t;
 				}
 				continue;
 
-- 
2.43.0


From c635bcc26c0ced5c52870d086ed8ac83b054056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 45/80] fix: cpp: -I with an absolute path was looked up below
 the source directory

Long directory names and more than 32 options overflowed their buffers.
---
 lcc/cpp/include.c | 11 ++++++++---
 lcc/cpp/unix.c    |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 452ec83..d9f90f1 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -12,9 +12,14 @@ void appendDirToIncludeList( char *dir )
 	int i;
 	char *fqdir;
 
-	fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
-	strcat( fqdir, "/" );
-	strcat( fqdir, dir );
+	if ( dir[0] == '/' ) {
+		fqdir = (char *)newstring( (uchar *)dir, strlen( dir ), 0 );
+	} else {
+		fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file,
+				strlen( includelist[NINCLUDE-1].file ) + 1 + strlen( dir ), 0 );
+		strcat( fqdir, "/" );
+		strcat( fqdir, dir );
+	}
 
 	//avoid adding it more than once
 	for (i=NINCLUDE-2; i>=0; i--) {
diff --git a/lcc/cpp/unix.c b/lcc/cpp/unix.c
index e533afb..cdf1c7b 100644
--- a/lcc/cpp/unix.c
+++ b/lcc/cpp/unix.c
@@ -32,6 +32,8 @@ setup(int argc, char **argv)
 					includelist[i].deleted = 1;
 			break;
 		case 'I':
+			if ( numIncludeDirs >= NINCLUDE )
+				error(FATAL, "Too many -I directives");
 			includeDirs[ numIncludeDirs++ ] = newstring( (uchar *)optarg, strlen( optarg ), 0 );
 			break;
 		case 'D':
-- 
2.43.0


From de0cac03f7a8ddc791da7cdfc952eef0e26c5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 46/80] fix: rcc: output that could not be written went
 unnoticed

rcc exited with status 0 and left truncated assembly behind.
---
 lcc/src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lcc/src/main.c b/lcc/src/main.c
index 63b85f2..1dda158 100644
--- a/lcc/src/main.c
+++ b/lcc/src/main.c
@@ -73,6 +73,11 @@ int main(int argc, char *argv[]) {
 	}
 	finalize();
 	(*IR->progend)();
+	fflush(stdout);
+	if (ferror(stdout) || fclose(stdout) != 0) {
+		fprint(stderr, "%s: can't write the output\n", argv[0]);
+		exit(EXIT_FAILURE);
+	}
 	deallocate(PERM);
 	return errcnt > 0;
 }
-- 
2.43.0


From bb1ae8d856fe39ec4baa7b7e61809bee085d8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 47/80] fix: rcc: a failing read was taken for the end of the
 file

---
 lcc/src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/input.c b/lcc/src/input.c
index c2a084e..efb6395 100644
--- a/lcc/src/input.c
+++ b/lcc/src/input.c
@@ -51,7 +51,7 @@ void fillbuf(void) {
 		bsize = 0;
 	else
 		bsize = fread(&buffer[MAXLINE+1], 1, BUFSIZE, stdin);
-	if (bsize < 0) {
+	if (bsize < 0 || ferror(stdin)) {
 		error("read error\n");
 		exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 22593dd7b24d892338165642dd4f22afb6cfbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 48/80] fix: rcc: source comments from a file that could not be
 read

---
 lcc/src/bytecode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index c7bfa1d..c76ef4e 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -259,9 +259,9 @@ static void LoadSourceFile( const char *filename ) {
 		return;
 	}
 	length = filelength( f );
-	sourceFile = malloc( length + 1 );
+	sourceFile = length < 0 ? NULL : malloc( length + 1 );
 	if ( sourceFile ) {
-		fread( sourceFile, length, 1, f );
+		length = fread( sourceFile, 1, length, f );
 		sourceFile[length] = 0;
 	}
 
-- 
2.43.0


From bcc5f56df6ccaca5fa0c2ec2be169f39aa8609aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 49/80] fix: lcc: interrupted while cpp or rcc ran, lcc left
 files behind

---
 lcc/etc/lcc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lcc/etc/lcc.c b/lcc/etc/lcc.c
index a12799b..d807744 100644
--- a/lcc/etc/lcc.c
+++ b/lcc/etc/lcc.c
@@ -614,6 +614,13 @@ static void initinputs(void) {
 
 /* interrupt - catch interrupt signals */
 static void interrupt(int n) {
+#ifndef WIN32
+	int status;
+
+	signal(n, SIG_IGN);
+	while (wait(&status) != -1)
+		;	/* a running cpp or rcc could write a removed file again */
+#endif
 	rm(rmlist);
 	exit(n = 100);
 }
-- 
2.43.0


From f03fffea21fe6f85dbee501a7e8c9f9fb654440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 50/80] fix: rcc: crash on an undeclared function called
 outside of a function

---
 lcc/src/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index ce9594b..e24be57 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -374,6 +374,8 @@ static Tree primary(void) {
 						(*IR->defsymbol)(q);
 					}
 					p->u.alias = q;
+					if (level == GLOBAL)	/* finalize imports it */
+						(*IR->defsymbol)(p);
 				} else {
 					error("undeclared identifier `%s'\n", p->name);
 					p->sclass = AUTO;
-- 
2.43.0


From 048c6ac683c0f196a4a012abadedb9194c3135bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 51/80] fix: rcc: endless loop on a last line that starts with
 # and has no newline

---
 lcc/src/input.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/input.c b/lcc/src/input.c
index efb6395..35b5b91 100644
--- a/lcc/src/input.c
+++ b/lcc/src/input.c
@@ -126,9 +126,11 @@ static void resynch(void) {
 		warning("unrecognized control line\n");
 	while (*cp)
 		if (*cp++ == '\n') {
-			if (cp == limit + 1)
+			if (cp == limit + 1) {
 				nextline();
-			else
+				if (cp == limit)
+					break;
+			} else
 				break;
 		}
 }
-- 
2.43.0


From a5d21c24a0d32d73256eac53da91fdd4b33e9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 52/80] fix: cpp: binary operators of #if group from the left,
 nested ?: is accepted

---
 lcc/cpp/eval.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 95a9e11..8763676 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -90,7 +90,7 @@ struct pri {
 	{ 16, 0, UNARY },	/* UMINUS */
 };
 
-int	evalop(struct pri);
+int	evalop(int);
 struct	value tokval(Token *);
 struct value vals[NSTAK], *vp;
 enum toktype ops[NSTAK], *op;
@@ -168,7 +168,7 @@ eval(Tokenrow *trp, int kw)
 		case COLON: case COMMA:
 			if (rand==0)
 				goto syntax;
-			if (evalop(priority[tp->type])!=0)
+			if (evalop(tp->type)!=0)
 				return 0;
 			*op++ = tp->type;
 			rand = 0;
@@ -183,7 +183,7 @@ eval(Tokenrow *trp, int kw)
 		case RP:
 			if (!rand)
 				goto syntax;
-			if (evalop(priority[RP])!=0)
+			if (evalop(RP)!=0)
 				return 0;
 			if (op<=ops || op[-1]!=LP) {
 				goto syntax;
@@ -198,7 +198,7 @@ eval(Tokenrow *trp, int kw)
 	}
 	if (rand==0)
 		goto syntax;
-	if (evalop(priority[END])!=0)
+	if (evalop(END)!=0)
 		return 0;
 	if (op!=&ops[1] || vp!=&vals[1]) {
 		error(ERROR, "Botch in #if/#elsif");
@@ -212,8 +212,22 @@ syntax:
 	return 0;
 }
 
+/*
+ * Is the operator on top of the stack applied before the one just seen?
+ * Binary operators group left to right, ?: groups right to left.
+ */
+static int
+reduces(int type, int top)
+{
+	if (priority[type].pri != priority[top].pri)
+		return priority[type].pri < priority[top].pri;
+	if (priority[type].ctype==SPCL)
+		return type==COLON && top==COLON;
+	return priority[type].arity==2;
+}
+
 int
-evalop(struct pri pri)
+evalop(int type)
 {
 	struct value v1, v2;
 	long rv1, rv2;
@@ -225,7 +239,7 @@ evalop(struct pri pri)
 
 	rv2=0;
 	rtype=0;
-	while (pri.pri < priority[op[-1]].pri) {
+	while (reduces(type, op[-1])) {
 		oper = *--op;
 		if (priority[oper].arity==2) {
 			v2 = *--vp;
-- 
2.43.0


From e4521bceb5959f700e094340521f9f4cab55a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 53/80] fix: cpp: ?: in #if is unsigned if either branch is

---
 lcc/cpp/eval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 8763676..8e09aa7 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -378,10 +378,16 @@ evalop(int type)
 			if (op[-1] != QUEST)
 				error(ERROR, "Bad ?: in #if/endif");
 			else {
+				int uns = v1.type==UNS || v2.type==UNS;
+
 				op--;
 				if ((--vp)->val==0)
 					v1 = v2;
 				rtype = v1.type;
+				if (rtype==SGN && uns)
+					rtype = UNS;
+				if (vp->type==UND)
+					rtype = UND;
 				rv1 = v1.val;
 			}
 			break;
-- 
2.43.0


From ff2f14b64ab33a59708ba7b970b862b69d5766a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 54/80] fix: cpp: memory corruption by #if expressions with
 many operators

---
 lcc/cpp/eval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 8e09aa7..372d128 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -2,7 +2,7 @@
 #include <string.h>
 #include "cpp.h"
 
-#define	NSTAK	32
+#define	NSTAK	256
 #define	SGN	0
 #define	UNS	1
 #define	UND	2
@@ -122,6 +122,10 @@ eval(Tokenrow *trp, int kw)
 	op = ops;
 	*op++ = END;
 	for (rand=0, tp = trp->bp+ntok; tp < trp->lp; tp++) {
+		if (op >= &ops[NSTAK]) {
+			error(ERROR, "Expression too complex in #if/#elsif");
+			return 0;
+		}
 		switch(tp->type) {
 		case WS:
 		case NL:
-- 
2.43.0


From 4e73228729eadc21a765550eafb548440b8b94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 55/80] fix: cpp: crash on the division of the smallest number
 by -1 in #if

---
 lcc/cpp/eval.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 372d128..560d48f 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -364,7 +364,9 @@ evalop(int type)
 				break;
 			}
 			if (rtype==UNS)
-				rv1 /= (unsigned long)rv2;
+				rv1 = (unsigned long)rv1 / (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = -(unsigned long)rv1;
 			else
 				rv1 /= rv2;
 			break;
@@ -374,7 +376,9 @@ evalop(int type)
 				break;
 			}
 			if (rtype==UNS)
-				rv1 %= (unsigned long)rv2;
+				rv1 = (unsigned long)rv1 % (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = 0;
 			else
 				rv1 %= rv2;
 			break;
-- 
2.43.0


From eb8be9643edb9ef8da9a2679221f61ebe7bb5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 56/80] fix: cpp: # and the name of a macro in a skipped group
 counted as #if

---
 lcc/cpp/cpp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 91ac4b4..07f7fe5 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -102,8 +102,9 @@ control(Tokenrow *trp)
 			error(ERROR, "Unidentifiable control line");
 		return;			/* else empty line */
 	}
-	if ((np = lookup(tp, 0))==NULL || ((np->flag&ISKW)==0 && !skipping)) {
-		error(WARNING, "Unknown preprocessor control %t", tp);
+	if ((np = lookup(tp, 0))==NULL || (np->flag&ISKW)==0) {
+		if (!skipping)
+			error(WARNING, "Unknown preprocessor control %t", tp);
 		return;
 	}
 	if (skipping) {
-- 
2.43.0


From 6a72ee6f2ac8a0321abe824f5c59777ea9d51609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 57/80] fix: cpp: the condition of #elif was evaluated after a
 group was taken

---
 lcc/cpp/cpp.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 07f7fe5..cdad10d 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -172,13 +172,9 @@ control(Tokenrow *trp)
 		}
 		if (ifsatisfied[ifdepth]==2)
 			error(ERROR, "#elif after #else");
-		if (eval(trp, np->val)) {
-			if (ifsatisfied[ifdepth])
-				skipping = ifdepth;
-			else {
-				skipping = 0;
-				ifsatisfied[ifdepth] = 1;
-			}
+		if (ifsatisfied[ifdepth]==0 && eval(trp, np->val)) {
+			skipping = 0;
+			ifsatisfied[ifdepth] = 1;
 		} else
 			skipping = ifdepth;
 		break;
-- 
2.43.0


From d7ff1e2f50455ca8b559bbb9efec950c08d4d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 58/80] fix: cpp: read past the end of a macro body

---
 lcc/cpp/macro.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2972083..dbd0e68 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -326,7 +326,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		if (rtr->tp->type==SHARP) {	/* string operator */
 			tp = rtr->tp;
 			rtr->tp += 1;
-			if ((argno = lookuparg(np, rtr->tp))<0) {
+			if (rtr->tp>=rtr->lp || (argno = lookuparg(np, rtr->tp))<0) {
 				error(ERROR, "# not followed by macro parameter");
 				continue;
 			}
@@ -337,7 +337,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		}
 		if (rtr->tp->type==NAME
 		 && (argno = lookuparg(np, rtr->tp)) >= 0) {
-			if ((rtr->tp+1)->type==DSHARP
+			if ((rtr->tp+1<rtr->lp && (rtr->tp+1)->type==DSHARP)
 			 || (rtr->tp!=rtr->bp && (rtr->tp-1)->type==DSHARP))
 				insertrow(rtr, 1, atr[argno]);
 			else {
-- 
2.43.0


From d8b0cb359d608297d5cdb59580ccf951df1737f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 59/80] fix: cpp: stack overflow when ## makes a token of 128
 characters or more

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index dbd0e68..03ec962 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -366,7 +366,7 @@ doconcat(Tokenrow *trp)
 		if (trp->tp->type==DSHARP1)
 			trp->tp->type = DSHARP;
 		else if (trp->tp->type==DSHARP) {
-			char tt[128];
+			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
 			if (ltp<trp->bp || ntp>=trp->lp) {
@@ -374,10 +374,12 @@ doconcat(Tokenrow *trp)
 				continue;
 			}
 			len = ltp->len + ntp->len;
+			tt = domalloc(len+1);
 			strncpy((char*)tt, (char*)ltp->t, ltp->len);
 			strncpy((char*)tt+ltp->len, (char*)ntp->t, ntp->len);
 			tt[len] = '\0';
 			setsource("<##>", -1, tt);
+			dofree(tt);
 			maketokenrow(3, &ntr);
 			gettokens(&ntr, 1);
 			unsetsource();
-- 
2.43.0


From a1c834ecb1e18ef993117e67c661b04cc595a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 60/80] fix: cpp: endless loop on recursive macros nested 32
 deep or more

---
 lcc/cpp/hideset.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lcc/cpp/hideset.c b/lcc/cpp/hideset.c
index bd2540d..c3f1c0f 100644
--- a/lcc/cpp/hideset.c
+++ b/lcc/cpp/hideset.c
@@ -9,7 +9,6 @@
  * Hideset 0 is empty.
  */
 
-#define	HSSIZ	32
 typedef	Nlist	**Hideset;
 Hideset	*hidesets;
 int	nhidesets = 0;
@@ -40,26 +39,26 @@ int
 newhideset(int hs, Nlist *np)
 {
 	int i, len;
-	Nlist *nhs[HSSIZ+3];
-	Hideset hs1, hs2;
+	Hideset nhs, hs1, hs2;
 
+	for (len=0; hidesets[hs][len]; len++)
+		;
+	nhs = (Hideset)domalloc((len+2)*sizeof(*nhs));
 	len = inserths(nhs, hidesets[hs], np);
 	for (i=0; i<nhidesets; i++) {
 		for (hs1=nhs, hs2=hidesets[i]; *hs1==*hs2; hs1++, hs2++)
-			if (*hs1 == NULL)
+			if (*hs1 == NULL) {
+				dofree(nhs);
 				return i;
+			}
 	}
-	if (len>=HSSIZ)
-		return hs;
 	if (nhidesets >= maxhidesets) {
 		maxhidesets = 3*maxhidesets/2+1;
 		hidesets = (Hideset *)realloc(hidesets, (sizeof (Hideset *))*maxhidesets);
 		if (hidesets == NULL)
 			error(FATAL, "Out of memory from realloc");
 	}
-	hs1 = (Hideset)domalloc(len*sizeof(Hideset));
-	memmove(hs1, nhs, len*sizeof(Hideset));
-	hidesets[nhidesets] = hs1;
+	hidesets[nhidesets] = nhs;
 	return nhidesets++;
 }
 
-- 
2.43.0


From 2b42f087a2f8796fb99d3fbe2ace96b72335aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 61/80] fix: cpp: memory corruption by many __FILE__ and
 __LINE__ in a line, and by long names in #line

---
 lcc/cpp/cpp.c     | 4 ----
 lcc/cpp/cpp.h     | 1 -
 lcc/cpp/include.c | 6 +++---
 lcc/cpp/macro.c   | 9 ++++-----
 4 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index cdad10d..125d7f2 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -7,9 +7,6 @@
 
 char rcsid[] = "cpp.c - faked rcsid";
 
-#define	OUTS	16384
-char	outbuf[OUTS];
-char	*outbufp = outbuf;
 Source	*cursource;
 int	nerrs;
 struct	token nltoken = { NL, 0, 0, 0, 1, (uchar*)"\n" };
@@ -53,7 +50,6 @@ process(Tokenrow *trp)
 	for (;;) {
 		if (trp->tp >= trp->lp) {
 			trp->tp = trp->lp = trp->bp;
-			outbufp = outbuf;
 			anymacros |= gettokens(trp, 1);
 			trp->tp = trp->bp;
 		}
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index f59d3b8..9b1d287 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -144,7 +144,6 @@ void	setobjname(char *);
 
 char *basepath( char *fname );
 
-extern	char *outbufp;
 extern	Token	nltoken;
 extern	Source *cursource;
 extern	char *curtime;
diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index d9f90f1..471cb67 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -125,7 +125,7 @@ genline(void)
 	static Tokenrow tr = { &ta, &ta, &ta+1, 1 };
 	uchar *p;
 
-	ta.t = p = (uchar*)outbufp;
+	ta.t = p = domalloc(strlen(cursource->filename)+strlen(wd)+32);
 	strcpy((char*)p, "#line ");
 	p += sizeof("#line ")-1;
 	p = (uchar*)outnum((char*)p, cursource->line);
@@ -138,10 +138,10 @@ genline(void)
 	strcpy((char*)p, cursource->filename);
 	p += strlen((char*)p);
 	*p++ = '"'; *p++ = '\n';
-	ta.len = (char*)p-outbufp;
-	outbufp = (char*)p;
+	ta.len = p-ta.t;
 	tr.tp = tr.bp;
 	puttokens(&tr);
+	dofree(ta.t);
 }
 
 void
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 03ec962..12a8290 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -471,11 +471,12 @@ builtin(Tokenrow *trp, int biname)
 		s = cursource;
 	/* most are strings */
 	tp->type = STRING;
+	op = domalloc(2*strlen(s->filename)+32);
 	if (tp->wslen) {
-		*outbufp++ = ' ';
+		*op++ = ' ';
 		tp->wslen = 1;
 	}
-	op = outbufp;
+	tp->t = (uchar*)op;
 	*op++ = '"';
 	switch (biname) {
 
@@ -510,7 +511,5 @@ builtin(Tokenrow *trp, int biname)
 	}
 	if (tp->type==STRING)
 		*op++ = '"';
-	tp->t = (uchar*)outbufp;
-	tp->len = op - outbufp;
-	outbufp = op;
+	tp->len = op - (char*)tp->t;
 }
-- 
2.43.0


From f5bb89a10c169e0735b8be7a6e55d4b9e20df700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 62/80] fix: cpp: # dropped the white space where an argument
 continues on the next line

---
 lcc/cpp/macro.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 12a8290..20797d1 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -220,6 +220,21 @@ expand(Tokenrow *trp, Nlist *np)
 	dofree(ntr.bp);
 }	
 
+/*
+ * A newline between arguments is white space
+ */
+static void
+newlinespace(Tokenrow *trp)
+{
+	Token *tp = trp->tp;
+
+	if (tp >= trp->lp || tp->wslen || tp->type==END)
+		return;
+	tp->t = newstring(tp->t, tp->len, 1);
+	*tp->t++ = ' ';
+	tp->wslen = 1;
+}
+
 /*
  * Gather an arglist, starting in trp with tp pointing at the macro name.
  * Return total number of tokens passed, stash number of args found.
@@ -264,7 +279,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			gettokens(trp, 0);
 		if (needspace) {
 			needspace = 0;
-			makespace(trp);
+			newlinespace(trp);
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
@@ -276,7 +291,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			trp->tp += 1;
 			adjustrow(trp, -1);
 			trp->tp -= 1;
-			makespace(trp);
+			newlinespace(trp);
 			needspace = 1;
 			continue;
 		}
-- 
2.43.0


From 98754b3cff6fb2e76d709762b280fc457b6170dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 63/80] fix: cpp: a macro behind the name of a function-like
 macro was not expanded

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 20797d1..c7721ce 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -265,8 +265,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		}
 		if (trp->tp->type==LP)
 			break;
-		if (trp->tp->type!=NL)
+		if (trp->tp->type!=NL) {
+			trp->tp -= ntok;
 			return ntok;
+		}
 	}
 	*narg = 0;
 	ntok++;
-- 
2.43.0


From 6d1b4af8441ebc4ff72efa201b3f4519d8486ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 64/80] fix: cpp: a directive behind a line that ends with the
 name of a function-like macro was not executed

---
 lcc/cpp/cpp.c   | 14 ++++++++++++++
 lcc/cpp/cpp.h   |  2 ++
 lcc/cpp/macro.c | 11 +++++++++++
 3 files changed, 27 insertions(+)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 125d7f2..bfeffac 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -15,6 +15,7 @@ int	incdepth;
 int	ifdepth;
 int	ifsatisfied[NIF];
 int	skipping;
+int	ctllineinc;		/* lines of the control line behind XCTL */
 
 
 int
@@ -46,6 +47,7 @@ void
 process(Tokenrow *trp)
 {
 	int anymacros = 0;
+	int rest;
 
 	for (;;) {
 		if (trp->tp >= trp->lp) {
@@ -75,12 +77,24 @@ process(Tokenrow *trp)
 			expandrow(trp, NULL);
 		if (skipping)
 			setempty(trp);
+		rest = 0;
+		if (trp->tp<trp->lp && trp->tp->flag&XCTL) {
+			rest = trp->lp - trp->tp;
+			trp->lp = trp->tp;
+		}
 		puttokens(trp);
 		anymacros = 0;
 		cursource->line += cursource->lineinc;
 		if (cursource->lineinc>1) {
 			genline();
 		}
+		if (rest) {		/* go on with the control line */
+			trp->lp += rest;
+			adjustrow(trp, trp->bp - trp->tp);
+			trp->tp = trp->bp;
+			trp->tp->flag &= ~XCTL;
+			cursource->lineinc = ctllineinc;
+		}
 	}
 }
 	
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index 9b1d287..166d81c 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -35,6 +35,7 @@ enum kwtype { KIF, KIFDEF, KIFNDEF, KELIF, KELSE, KENDIF, KINCLUDE, KDEFINE,
 #define	EOB	0xFE		/* sentinel for end of input buffer */
 #define	EOFC	0xFD		/* sentinel for end of input file */
 #define	XPWS	1		/* token flag: white space to assure token sep. */
+#define	XCTL	2		/* token flag: # that starts a control line */
 
 typedef struct token {
 	unsigned char	type;
@@ -152,6 +153,7 @@ extern	int ifdepth;
 extern	int ifsatisfied[NIF];
 extern	int Mflag;
 extern	int skipping;
+extern	int ctllineinc;
 extern	int verbose;
 extern	int Cplusplus;
 extern	Nlist *kwdefined;
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index c7721ce..f35f948 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -137,6 +137,10 @@ expandrow(Tokenrow *trp, char *flag)
 	if (flag)
 		setsource(flag, -1, "");
 	for (tp = trp->tp; tp<trp->lp; ) {
+		if (tp->flag&XCTL) {
+			trp->tp = tp;
+			break;
+		}
 		if (tp->type!=NAME
 		 || quicklook(tp->t[0], tp->len>1?tp->t[1]:0)==0
 		 || (np = lookup(tp, 0))==NULL
@@ -256,7 +260,14 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		trp->tp++;
 		ntok++;
 		if (trp->tp >= trp->lp) {
+			int lineinc = cursource->lineinc;
+
 			gettokens(trp, 0);
+			if (trp->tp->type==SHARP && cursource->fd!=-1) {
+				trp->tp->flag |= XCTL;
+				ctllineinc = cursource->lineinc - lineinc;
+				cursource->lineinc = lineinc;
+			}
 			if ((trp->lp-1)->type==END) {
 				trp->lp -= 1;
 				trp->tp -= ntok;
-- 
2.43.0


From b3a034b81dfaeb43a110bcfde5a6029036f7623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 65/80] fix: cpp: wrong line numbers behind a #line with line
 splices

---
 lcc/cpp/cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index bfeffac..2f2e33a 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -236,6 +236,7 @@ control(Tokenrow *trp)
 		cursource->line = atol((char*)tp->t)-1;
 		if (cursource->line<0 || cursource->line>=32768)
 			error(WARNING, "#line specifies number out of range");
+		cursource->line -= cursource->lineinc-1;
 		tp = tp+1;
 		if (tp+1<trp->lp)
 			cursource->filename=(char*)newstring(tp->t+1,tp->len-2,0);
-- 
2.43.0


From e9d882d0863db8da85fc1b7984c99a468625c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 66/80] fix: cpp: the rest of a file with a byte 0xfd or 0xfe
 was dropped

---
 lcc/cpp/cpplex.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 0298b9a..d69b4d3 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -344,6 +344,14 @@ gettokens(Tokenrow *trp, int reset)
 				runelen = 1;
 				continue;
 			}
+			if (c>=EOFC && c<=EOB && ip<s->inl) {
+				/* not a sentinel but a character of the input */
+				if ((state = bigfsm['\1'][oldstate]) >= 0) {
+					ip += runelen;
+					runelen = 1;
+					continue;
+				}
+			}
 			state = ~state;
 		reswitch:
 			switch (state&0177) {
@@ -525,8 +533,6 @@ fillbuf(Source *s)
 		while ((n=read(s->fd, (char *)s->inl, INS/8)) < 0)
 			if (errno != EINTR)
 				error(FATAL, "Can't read %s", s->filename);
-	if ((*s->inp&0xff) == EOB) /* sentinel character appears in input */
-		*s->inp = EOFC;
 	s->inl += n;
 	s->inl[0] = s->inl[1]= s->inl[2]= s->inl[3] = EOB;
 	if (n==0) {
-- 
2.43.0


From 0120e1cce2d30e227f762c058ba41c6c6b475560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 67/80] fix: cpp: identical macro redefinition refused when the
 parameters are spaced differently

---
 lcc/cpp/macro.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index f35f948..2cd57d9 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -68,17 +68,21 @@ dodefine(Tokenrow *trp)
 	if (((trp->lp)-1)->type==NL)
 		trp->lp -= 1;
 	def = normtokenrow(trp);
-	if (np->flag&ISDEFINED) {
-		if (comparetokens(def, np->vp)
-		 || (np->ap==NULL) != (args==NULL)
-		 || (np->ap && comparetokens(args, np->ap)))
-			error(ERROR, "Macro redefinition of %t", trp->bp+2);
-	}
 	if (args) {
 		Tokenrow *tap;
+		Token *atp;
+
 		tap = normtokenrow(args);
 		dofree(args->bp);
 		args = tap;
+		for (atp=args->bp; atp<args->lp; atp++)
+			atp->wslen = 0;		/* white space here does not count */
+	}
+	if (np->flag&ISDEFINED) {
+		if (comparetokens(def, np->vp)
+		 || (np->ap==NULL) != (args==NULL)
+		 || (np->ap && comparetokens(args, np->ap)))
+			error(ERROR, "Macro redefinition of %t", trp->bp+2);
 	}
 	np->ap = args;
 	np->vp = def;
-- 
2.43.0


From b7f9d4ed6bbf41ecf252bd530525ff1493a4dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 68/80] fix: cpp: a preprocessing number ended at an underscore

---
 lcc/cpp/cpplex.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index d69b4d3..29cff78 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -92,13 +92,12 @@ struct	fsm {
 	{NUM1,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM1,	{ C_NUM, C_ALPH, '.' },	NUM1},
 	{NUM1,	{ 'E', 'e' },	NUM2},
-	{NUM1,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw possible start of exponent, digits-e */
 	{NUM2,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM2,	{ '+', '-' },	NUM1},
-	{NUM2,	{ C_NUM, C_ALPH },	NUM1},
-	{NUM2,	{ '_' },	ACT(NUMBER,S_SELFB)},
+	{NUM2,	{ C_NUM, C_ALPH, '.' },	NUM1},
+	{NUM2,	{ 'E', 'e' },	NUM2},
 
 	/* saw a '.', which could be a number or an operator */
 	{NUM3,	{ C_XX },	ACT(DOT,S_SELFB)},
-- 
2.43.0


From d959801f7188f3c1ac8086481207430853e348dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 69/80] fix: cpp: # dropped the white space in front of macros
 and parameters

---
 lcc/cpp/tokens.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index fb1e326..66dd837 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -132,11 +132,20 @@ void
 insertrow(Tokenrow *dtr, int ntok, Tokenrow *str)
 {
 	int nrtok = rowlen(str);
+	int space = ntok>0 && dtr->tp->wslen && (dtr->tp->flag&XPWS)==0;
 
 	dtr->tp += ntok;
 	adjustrow(dtr, nrtok-ntok);
 	dtr->tp -= ntok;
 	movetokenrow(dtr, str);
+	if (space && nrtok>0) {		/* keep the space for # */
+		if (dtr->tp->wslen==0) {
+			dtr->tp->t = newstring(dtr->tp->t, dtr->tp->len, 1);
+			*dtr->tp->t++ = ' ';
+			dtr->tp->wslen = 1;
+		}
+		dtr->tp->flag &= ~XPWS;
+	}
 	makespace(dtr);
 	dtr->tp += nrtok;
 	makespace(dtr);
-- 
2.43.0


From 906c794a25c37a49342bf7c28e9398b54b3b3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 70/80] fix: cpp: macro defined on a last line without newline
 unusable in #if

---
 lcc/cpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2cd57d9..b934342 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -65,7 +65,7 @@ dodefine(Tokenrow *trp)
 		tp += 1;
 	}
 	trp->tp = tp;
-	if (((trp->lp)-1)->type==NL)
+	if (((trp->lp)-1)->type==NL || ((trp->lp)-1)->type==END)
 		trp->lp -= 1;
 	def = normtokenrow(trp);
 	if (args) {
-- 
2.43.0


From 0e73584725d8ebcb37cddb439186e1051c4de0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 71/80] fix: cpp: ## made by ## was taken for an operator

---
 lcc/cpp/macro.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index b934342..1383b22 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -418,6 +418,8 @@ doconcat(Tokenrow *trp)
 			if (ntr.lp-ntr.bp!=2 || ntr.bp->type==UNCLASS)
 				error(WARNING, "Bad token %r produced by ##", &ntr);
 			ntr.lp = ntr.bp+1;
+			if (ntr.bp->type==DSHARP)
+				ntr.bp->type = DSHARP1;	/* no operator */
 			trp->tp = ltp;
 			makespace(&ntr);
 			insertrow(trp, (ntp-ltp)+1, &ntr);
-- 
2.43.0


From 8c87c8057d809e78284dd8296d7c2380de4c695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 72/80] fix: cpp: valid source refused when a long comment
 meets the end of the input buffer

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 29cff78..4371c6f 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -440,7 +440,7 @@ gettokens(Tokenrow *trp, int reset)
 				state = COM2;
 				ip += runelen;
 				runelen = 1;
-				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
+				if (ip >= s->inb+(3*INS/4)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
 					ip = tp->t;
-- 
2.43.0


From ef732d7d33d55af94dd42df6a3dac7c6e44cb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 73/80] fix: q3cpp included another file of the same name when
 a header cannot be opened

---
 lcc/cpp/include.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 471cb67..5da59bb 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
 #include "cpp.h"
 
 Includelist	includelist[NINCLUDE];
@@ -95,6 +96,9 @@ doinclude(Tokenrow *trp)
 		strcat(iname, fname);
 		if ((fd = open(iname, 0)) >= 0)
 			break;
+		/* it may be the one, do not take another of that name instead */
+		if (errno!=ENOENT && errno!=ENOTDIR)
+			break;
 	}
 	if ( Mflag>1 || (!angled&&Mflag==1) ) {
 		putout(objname,strlen(objname));
-- 
2.43.0


From 355cffe784ac7f8dfb1e71bd61adbcd8d0c31b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 74/80] fix: cpp: #line was put behind the last line of a
 header without newline

---
 lcc/cpp/cpplex.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 4371c6f..552fb0c 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -305,6 +305,7 @@ gettokens(Tokenrow *trp, int reset)
 	int runelen;
 	Source *s = cursource;
 	int nmac = 0;
+	int old = trp->lp - trp->bp;
 
 	tp = trp->lp;
 	ip = s->inp;
@@ -411,11 +412,19 @@ gettokens(Tokenrow *trp, int reset)
 				continue;
 
 			case S_EOF:
-				tp->type = END;
-				tp->len = 0;
 				s->inp = ip;
-				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1)
+				if (tp-trp->bp!=old && cursource->fd!=-1) {
 					error(WARNING,"No newline at end of file");
+					tp->t = (uchar*)"\n";
+					tp->type = NL;
+					tp->len = 1;
+					tp->wslen = 0;
+					s->lineinc++;
+					trp->lp = tp+1;
+					return nmac;
+				}
+				tp->type = END;
+				tp->len = 0;
 				trp->lp = tp+1;
 				return nmac;
 
-- 
2.43.0


From 420587f97e3247840fd044d32a56ca821c116dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 75/80] fix: cpp: __LINE__ and . or a number beside it were
 joined

---
 lcc/cpp/macro.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 1383b22..fc66d74 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -546,4 +546,8 @@ builtin(Tokenrow *trp, int biname)
 	if (tp->type==STRING)
 		*op++ = '"';
 	tp->len = op - (char*)tp->t;
+	trp->tp = tp;
+	makespace(trp);
+	trp->tp++;
+	makespace(trp);
 }
-- 
2.43.0


From 71c3296964747b2cc7b192b191491d71a82d4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 76/80] fix: cpp: ## in an argument was taken for an operator
 by the enclosing macro

---
 lcc/cpp/macro.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index fc66d74..76183ad 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -395,9 +395,7 @@ doconcat(Tokenrow *trp)
 	int len;
 
 	for (trp->tp=trp->bp; trp->tp<trp->lp; trp->tp++) {
-		if (trp->tp->type==DSHARP1)
-			trp->tp->type = DSHARP;
-		else if (trp->tp->type==DSHARP) {
+		if (trp->tp->type==DSHARP) {
 			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
-- 
2.43.0


From dd90d8d62cdcdfbcb4cd72704dca8b690db7cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 77/80] fix: rcc: trailing comma of a nested initialiser in
 braces refused

---
 lcc/src/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 2f015b4..dec5be8 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -110,7 +110,8 @@ static int initchar(int len, Type ty) {
 
 /* initend - finish off an initialization at level lev; accepts trailing comma */
 static void initend(int lev, char follow[]) {
-	if (lev == 0 && t == ',')
+	(void)lev;
+	if (t == ',')
 		t = gettok();
 	test('}', follow);
 }
-- 
2.43.0


From 73748605d109456cd658909e23cc833ab41efcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 78/80] fix: rcc: trailing comma after the initialiser of a
 bit-field refused

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index dec5be8..39dafbc 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -141,7 +141,7 @@ static int initfields(Field p, Field q) {
 		if (p->link == q)
 			break;
 		p = p->link;
-	} while (t == ',' && (t = gettok()) != 0);
+	} while (t == ',' && (t = gettok()) != '}');
 	n = (n + 7)/8;
 	for (i = 0; i < n; i++) {
 		Value v;
-- 
2.43.0


From b4aaad6bad36e585f809eb84da3365c114ae5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 79/80] fix: cpp: an #if expression with an open parenthesis or
 a comma was only warned about

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 560d48f..b88622c 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -255,7 +255,7 @@ evalop(int type)
 		switch (priority[oper].ctype) {
 		case 0:
 		default:
-			error(WARNING, "Syntax error in #if/#endif");
+			error(ERROR, "Syntax error in #if/#endif");
 			return 1;
 		case ARITH:
 		case RELAT:
-- 
2.43.0


From 0b22c2465f3ac6a9f585cf8c0239d6511ad88abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 80/80] fix: rcc: an undeclared identifier outside of functions
 was freed while it was still listed

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index e24be57..7949050 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -355,7 +355,7 @@ static Tree primary(void) {
 		   p = idtree(tsym->u.c.loc); break;
 	case ID:   if (tsym == NULL)
 		   	{
-				Symbol p = install(token, &identifiers, level, FUNC);
+				Symbol p = install(token, &identifiers, level, level < LOCAL ? PERM : FUNC);
 				p->src = src;
 				if (getchr() == '(') {
 					Symbol q = lookup(token, externals);
-- 
2.43.0

