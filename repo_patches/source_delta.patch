From 876e825fd906ba7106601096c29d1531c7eee8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 01/97] fix: accept quoted operator characters as character
 literals

---
 necroassembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..65a33c6 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -832,6 +832,9 @@ class Assembler:
     def _get_math_formula(self, token):
         pre_formula = ''
         post_formula = ''
+        # an ascii char is never a formula
+        if len(token) == 3 and token[0] == '\'' and token[2] == '\'':
+            return token, pre_formula, post_formula
         for char in token:
             if char in ('<', '>'):
                 pre_formula += char
-- 
2.43.0


From fba72fff84b83da24d17b07fa0c42d5fe76e9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 02/97] fix: check .goto overlap against the location counter,
 not the image size

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 65a33c6..1319904 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -611,7 +611,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From a964b3bfbd5a3b5a95da0e5d1a280b679571c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 03/97] fix: check .upto overlap against the current origin
 block, not the image size

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 1319904..aaf1d2b 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -627,7 +627,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc - self.current_org:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From 97d6375e45057834774727ee4f2f459525731eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 04/97] fix: fill the last byte of a bounded origin when it is
 the only one missing

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index aaf1d2b..34eacc2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -198,7 +198,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From 475960b79fb83ddec35cb564648d2eb12a5af92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 05/97] fix: do not pad a bounded origin at the end of each
 included file

---
 necroassembler/assembler.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 34eacc2..18c7fd4 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -182,19 +182,7 @@ class Assembler:
         self.macro_recording = None
 
     def assemble(self, code, context=None):
-        tokenizer = Tokenizer(context=context)
-        tokenizer.parse(code)
-
-        for statement in tokenizer.statements:
-            current_index = len(self.assembled_bytes)
-            statement.assemble(self)
-            if self.log:
-                new_index = len(self.assembled_bytes)
-                if new_index == current_index:
-                    print('not assembled {0}'.format(statement))
-                else:
-                    print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
-                                                                     ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
+        self._assemble_statements(code, context)
 
         # check if we need to fill something
         if self.current_org_end > 0:
@@ -209,6 +197,21 @@ class Assembler:
             self.sections[self.current_section]['size'] = len(
                 self.assembled_bytes) - self.sections[self.current_section]['offset']
 
+    def _assemble_statements(self, code, context=None):
+        tokenizer = Tokenizer(context=context)
+        tokenizer.parse(code)
+
+        for statement in tokenizer.statements:
+            current_index = len(self.assembled_bytes)
+            statement.assemble(self)
+            if self.log:
+                new_index = len(self.assembled_bytes)
+                if new_index == current_index:
+                    print('not assembled {0}'.format(statement))
+                else:
+                    print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
+                                                                     ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
+
     def assemble_file(self, filename):
         with open(filename) as f:
             self.assemble(f.read(), filename)
@@ -734,7 +737,7 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            self._assemble_statements(f.read(), context=filename)
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From a9342c3a3d7e1316aa6d66b27078a2930a8e7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 06/97] fix: accept hexadecimal digits in suffixed literals
 (0FFh, 0bh)

---
 necroassembler/assembler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 18c7fd4..2db8305 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -315,6 +316,13 @@ class Assembler:
         if token[0] == '\'' and token[2] == '\'':
             return ord(token[1:2]), False
 
+        # hex digits could look like another prefix (as in 0bh or 0d1h)
+        for suffix in self.hex_suffixes:
+            if token.endswith(suffix):
+                digits = token[:-len(suffix)]
+                if digits[:1].isdigit() and all(digit in hexdigits for digit in digits):
+                    return int(digits, 16), False
+
         for prefix in self.hex_prefixes:
             if token.startswith(prefix):
                 return int(token[len(prefix):], 16), False
@@ -331,11 +339,6 @@ class Assembler:
             if token.startswith(prefix):
                 return int(token[len(prefix):], 10), True
 
-        for suffix in self.hex_suffixes:
-            if token.endswith(suffix):
-                if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 16), False
-
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
                 if token[:-len(suffix)].isdigit():
-- 
2.43.0


From 22c578ad9330b64cab8ce357fc775f42f89eeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 07/97] fix: resolve label references in every copy of a repeat
 block

---
 necroassembler/assembler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 2db8305..7d4ef8c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+from copy import copy
 from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
@@ -681,8 +682,17 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
+        labels = [(address, data) for address, data in self.labels_addresses.items()
+                  if address >= index]
         for i in range(0, size-1):
             self.append_assembled_bytes(blob)
+            # the copies need the label translations too
+            for address, data in labels:
+                data = copy(data)
+                shift = len(blob) * (i + 1)
+                if data.relative != 0:
+                    data.relative += shift
+                self.labels_addresses[address + shift] = data
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
-- 
2.43.0


From 8f25382e39b5d38b2da1ff6bf79489bb32080496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 08/97] fix: record the end of a section before moving to the
 origin of the next one

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 7d4ef8c..463df41 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -769,15 +769,15 @@ class Assembler:
         permissions = instr.tokens[2]
         if not all([True if letter in 'RWXE' else False for letter in permissions]):
             raise InvalidArgumentsForDirective(instr)
+        if self.current_section:
+            self.sections[self.current_section]['end'] = self.pc
+            self.sections[self.current_section]['size'] = len(
+                self.assembled_bytes) - self.sections[self.current_section]['offset']
         if len(instr.tokens) == 4:
             new_org_start = self.parse_integer(instr.tokens[3], 64, False)
             if new_org_start is None:
                 raise InvalidArgumentsForDirective(instr)
             self.change_org(new_org_start, 0)
-        if self.current_section:
-            self.sections[self.current_section]['end'] = self.pc
-            self.sections[self.current_section]['size'] = len(
-                self.assembled_bytes) - self.sections[self.current_section]['offset']
         self.current_section = name
         self.sections[self.current_section] = {
             'start': self.pc, 'offset': len(self.assembled_bytes), 'permissions': permissions}
-- 
2.43.0


From 5f449e0addc2f85af232c0f5140833691e2af9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 09/97] fix: range check labels converted to ascii digits
 instead of overwriting what follows

---
 necroassembler/assembler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 463df41..265da50 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -565,6 +565,8 @@ class Assembler:
 
     def directive_dw_to_ascii(self, instr):
         def dw_to_str(address, true_address):
+            if not in_bit_range(true_address, 16):
+                raise NotInBitRange(true_address, 16)
             blob = format(true_address, '05d').encode('ascii')
             for b in blob:
                 self.assembled_bytes[address] = b
@@ -696,6 +698,8 @@ class Assembler:
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
+            if not in_bit_range(true_address, 8):
+                raise NotInBitRange(true_address, 8)
             blob = format(true_address, '03d').encode('ascii')
             for b in blob:
                 self.assembled_bytes[address] = b
-- 
2.43.0


From dd3b86d1f44614f3b7098ff5c0329cfb96aea337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 10/97] fix: link Game Boy programs that are too short to hold
 a cartridge header

---
 necroassembler/platforms/gameboy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..18b1696 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -155,6 +155,10 @@ class AssemblerGameboy(AssemblerLR35902):
 
     @post_link
     def _fix(self):
+        # too short for having a cartridge header
+        if len(self.assembled_bytes) < 0x150:
+            return
+
         # header checksum
         header_checksum = 0
         for i in range(0x134, 0x14d):
-- 
2.43.0


From bbb440705bc5580a52325901ebe5fdf1fc1bb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 11/97] fix: do not include the checksum bytes in the Game Boy
 global checksum

---
 necroassembler/platforms/gameboy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 18b1696..7519018 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -168,8 +168,10 @@ class AssemblerGameboy(AssemblerLR35902):
 
         # global checksum
         global_checksum = 0
-        for byte in self.assembled_bytes:
-            global_checksum += int(byte)
+        for address, byte in enumerate(self.assembled_bytes):
+            # the checksum does not include itself
+            if address not in (0x14e, 0x14f):
+                global_checksum += int(byte)
 
         self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
         self.assembled_bytes[0x14f] = global_checksum & 0xFF
-- 
2.43.0


From 8cc1b7c36f03fb93d9221808a625cf346ed449cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 12/97] fix: let .define redefine an existing name

---
 necroassembler/statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..91c37dd 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -121,11 +121,12 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        # skip directive (and the name of a define) for defines substitution
+        substitute_with_dict(self.tokens, assembler.defines,
+                             2 if key.upper() == 'DEFINE' else 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From ca21cbc46439e608849f665bbc12e963e1dff089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 13/97] fix: do not substitute defines and macro arguments
 inside quoted strings

---
 necroassembler/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 9242d22..3ddad20 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -144,6 +144,9 @@ def is_valid_name(name):
 def substitute_with_dict(tokens, _dict, start):
     for i in range(start, len(tokens)):
         name = tokens[i]
+        # strings and chars are not names
+        if name[:1] in ('"', '\''):
+            continue
         # simple case first
         if name in _dict:
             tokens[i] = _dict[name]
-- 
2.43.0


From 49e5af6b181c8a2566804be8aa373a81a4157039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 14/97] fix: do not overwrite the only source when the
 destination argument is missing

---
 necroassembler/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 265da50..5a3c038 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -902,7 +902,9 @@ class Assembler:
         import sys
         import os
         try:
-            *sources, destination = sys.argv[1:]
+            # at least a source is required
+            source, *sources, destination = sys.argv[1:]
+            sources.insert(0, source)
         except ValueError:
             print('usage: {0} <sources> <destination>'.format(
                 os.path.basename(sys.argv[0])))
-- 
2.43.0


From 2a951069129e8c68527e9a2a2f12db097d778381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 15/97] fix: match fixed operands exactly instead of by any of
 their letters

---
 necroassembler/cpu/lr35902.py | 3 ++-
 necroassembler/statements.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..2e82f82 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -5,6 +5,7 @@ from necroassembler.exceptions import InvalidOpCodeArguments
 REGS8 = ('A', 'F', 'B', 'C', 'D', 'E', 'H', 'L')
 REGS16 = ('AF', 'BC', 'DE', 'HL', 'HL+', 'HL-', 'SP')
 CONDITIONS = ('Z', 'C', 'NZ', 'NC')
+IND_C = ('$FF00+C', 'C')
 
 
 def _is_value(token):
@@ -100,7 +101,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', IND_C, ')', 'A') or instr.match('[', IND_C, ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 91c37dd..b5176ac 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -71,7 +71,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
         return True
@@ -89,7 +89,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
         return True, start+index+1
-- 
2.43.0


From 9aea628d80d1580c505f2a322e2a84834516390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 16/97] fix: accept LD A,($FF00+C) on LR35902

---
 necroassembler/cpu/lr35902.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 2e82f82..4c4a299 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -149,6 +149,9 @@ class AssemblerLR35902(Assembler):
                     self._reg_name, None, self._reg_name, None)
                 return pack_byte(kwargs[reg8 + '_ind_' + reg16])
 
+            if instr.match('A', '(', IND_C, ')') or instr.match('A', '[', IND_C, ']'):
+                return pack_byte(kwargs['a_ind_c'])
+
             if instr.match(REGS8, '(', REGS8, ')') or instr.match(REGS8, '[', REGS8, ']'):
                 reg8, reg8_2 = instr.apply(
                     self._reg_name, None, self._reg_name, None)
-- 
2.43.0


From e5a071b57202fcef529375698af45014507f3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 17/97] fix: LD HL,SP+n is the only LR35902 load of SP plus an
 offset

---
 necroassembler/cpu/lr35902.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4c4a299..8cf3049 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -210,11 +210,11 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
+        if instr.match('HL', VALUE):
             value = None
-            if instr.tokens[2].startswith('SP+'):
+            if instr.tokens[2].upper().startswith('SP+'):
                 value = self._rel8(instr.tokens[2][3:])
-            elif instr.tokens[2].startswith('SP-'):
+            elif instr.tokens[2].upper().startswith('SP-'):
                 value = self._rel8(instr.tokens[2][2:])
             if value is not None:
                 return pack_byte(0xF8) + value
-- 
2.43.0


From 03229387e7814e723f58bfa01af88ebcb72dcb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 18/97] fix: register name in ($FF00+c) is case insensitive

---
 necroassembler/cpu/lr35902.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 8cf3049..5af1031 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -17,7 +17,7 @@ def _is_number(token):
 
 
 def _is_ldh(token):
-    return token.startswith('$FF00+') and token != '$FF00+C'
+    return token.startswith('$FF00+') and token.upper() != '$FF00+C'
 
 
 VALUE = _is_value
-- 
2.43.0


From a33b9555263377004026903bc8ea75df38537233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 19/97] fix: Z80 BIT b,(IX+d) and BIT b,(IY+d) use the
 documented opcodes

---
 necroassembler/cpu/z80.py | 112 --------------------------------------
 1 file changed, 112 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..1a68f4b 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -623,70 +623,14 @@ OPCODES_TABLE = (
     ([0xDDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3E], 'SRL', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x40], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x41], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x42], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x43], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x44], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x45], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x47], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x48], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x49], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4A], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4B], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4C], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4D], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4F], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x50], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x51], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x52], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x53], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x54], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x55], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x57], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x58], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x59], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5A], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5B], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5C], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5D], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5F], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x60], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x61], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x62], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x63], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x64], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x65], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x67], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x68], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x69], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6A], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6B], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6C], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6D], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6F], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x70], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x71], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x72], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x73], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x74], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x75], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x77], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x78], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x79], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7A], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7B], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7C], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7D], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7F], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IX+d', ')'),
@@ -1072,70 +1016,14 @@ OPCODES_TABLE = (
     ([0xFDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3E], 'SRL', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x40], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x41], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x42], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x43], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x44], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x45], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x47], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x48], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x49], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4A], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4B], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4C], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4D], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4F], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x50], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x51], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x52], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x53], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x54], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x55], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x57], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x58], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x59], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5A], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5B], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5C], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5D], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5F], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x60], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x61], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x62], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x63], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x64], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x65], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x67], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x68], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x69], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6A], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6B], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6C], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6D], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6F], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x70], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x71], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x72], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x73], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x74], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x75], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x77], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x78], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x79], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7A], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7B], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7C], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7D], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7F], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IY+d', ')'),
-- 
2.43.0


From cd6bcdf309fd6ad874fc481363b79cc4453de9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 20/97] fix: Z80 LD (IX+d),n and LD (IY+d),n emit both the
 displacement and the value

---
 necroassembler/cpu/z80.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 1a68f4b..9a8dc0e 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1237,30 +1237,30 @@ class Z80OpCode:
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1272,8 +1272,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 06f489bf3d8fde2d4bb4cbd25b1f145dc940d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 21/97] fix: Z80 index register operands are not labels

---
 necroassembler/cpu/z80.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 9a8dc0e..451c4b8 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1176,7 +1176,9 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
-        return arg.upper() not in REGS8+REGS16
+        return (arg.upper() not in REGS8+REGS16 and
+                not self._is_index_x(arg) and
+                not self._is_index_y(arg))
 
     def _is_index_x(self, arg):
         return (
-- 
2.43.0


From d7ce922f84ddf7da8da37f284013730202e5037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 22/97] fix: accept the Z80 EX AF,AF' instruction

---
 necroassembler/assembler.py | 6 +++++-
 necroassembler/cpu/z80.py   | 1 +
 necroassembler/tokenizer.py | 7 ++++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5a3c038..d5af65f 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -68,6 +68,9 @@ class Assembler:
 
     fill_value = 0
 
+    # names ending with a quote
+    quoted_names = ()
+
     big_endian = False
 
     defines = {}
@@ -200,7 +203,8 @@ class Assembler:
                 self.assembled_bytes) - self.sections[self.current_section]['offset']
 
     def _assemble_statements(self, code, context=None):
-        tokenizer = Tokenizer(context=context)
+        tokenizer = Tokenizer(
+            context=context, quoted_names=self.quoted_names)
         tokenizer.parse(code)
 
         for statement in tokenizer.statements:
diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 451c4b8..1b753e7 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1285,6 +1285,7 @@ class AssemblerZ80(Assembler):
 
     hex_prefixes = ('$',)
     bin_prefixes = ('%',)
+    quoted_names = ('AF\'',)
 
     def register_instructions(self):
         for line in OPCODES_TABLE:
diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..699ff2f 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -13,7 +13,7 @@ class InvalidLabel(Exception):
 class Tokenizer:
     '''Builds a list of tokenized statements from assembly source code'''
 
-    def __init__(self, case_sensitive=False, context=None):
+    def __init__(self, case_sensitive=False, context=None, quoted_names=()):
         self.state = self._state_token
         self.current_token = ''
         self.statements = []
@@ -21,6 +21,7 @@ class Tokenizer:
         self.case_sensitive = case_sensitive
         self.line = 1
         self.context = context
+        self.quoted_names = quoted_names
 
     def step(self, char):
         """Advances the Tokenizer State Machine
@@ -104,6 +105,10 @@ class Tokenizer:
         self.state = self._state_string
 
     def _token_char(self):
+        # the quote could be part of a name (like the Z80 AF')
+        if self.current_token.upper() + '\'' in self.quoted_names:
+            self.current_token += '\''
+            return
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
-- 
2.43.0


From 4d8c43856b4d3c90d3a8690285abae90fd9aeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 23/97] fix: report misplaced and empty labels as assembler
 errors with their location

---
 necroassembler/tokenizer.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 699ff2f..5eea1fc 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -1,13 +1,21 @@
 '''Exposes the assembly source code tokenization features'''
 from necroassembler.statements import Instruction, Directive, Label
+from necroassembler.exceptions import AssemblerException
 
 
-class InvalidLabel(Exception):
-    '''Raised when a label is specified after other tokens'''
+def _location(tokenizer, line):
+    if tokenizer.context is not None:
+        return 'at line {0} of {1}'.format(line, tokenizer.context)
+    return 'at line {0}'.format(line)
+
+
+class InvalidLabel(AssemblerException):
+    '''Raised when a label is empty or is specified after other tokens'''
+
+    message = 'invalid label'
 
     def __init__(self, tokenizer):
-        super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+        super().__init__(_location(tokenizer, tokenizer.line))
 
 
 class Tokenizer:
@@ -88,10 +96,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
-- 
2.43.0


From 9787794d7b828b7b089c0348be5801de33526d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 24/97] fix: reject a source that ends inside a quoted string
 instead of dropping its tail

---
 necroassembler/tokenizer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index 5eea1fc..d56434e 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -18,6 +18,15 @@ class InvalidLabel(AssemblerException):
         super().__init__(_location(tokenizer, tokenizer.line))
 
 
+class UnterminatedString(AssemblerException):
+    '''Raised when the source ends inside a quoted string'''
+
+    message = 'unterminated string'
+
+    def __init__(self, tokenizer):
+        super().__init__(_location(tokenizer, tokenizer.quote_line))
+
+
 class Tokenizer:
     '''Builds a list of tokenized statements from assembly source code'''
 
@@ -109,6 +118,7 @@ class Tokenizer:
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.quote_line = self.line
         self.state = self._state_string
 
     def _token_char(self):
@@ -119,6 +129,7 @@ class Tokenizer:
         if self.current_token:
             self.tokens.append(self.current_token)
         self.current_token = ''
+        self.quote_line = self.line
         self.state = self._state_char
 
     def _state_token(self, char):
@@ -154,3 +165,5 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedString(self)
-- 
2.43.0


From a8bd8a0c12e12ff693a802c26fdffcd37c00b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 25/97] fix: errors raised by directives report their line and
 file

---
 necroassembler/exceptions.py | 3 +++
 necroassembler/statements.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index 46bdb9a..f37b2e7 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -1,7 +1,10 @@
 class AssemblerException(Exception):
     message = None
+    located = False
 
     def __init__(self, context=None):
+        # does the message already tell where the problem is ?
+        self.located = context is not None
         if context is not None:
             self.message += ' ' + str(context)
         super().__init__(self.message)
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index b5176ac..81f0583 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -47,6 +47,7 @@ class Instruction(Statement):
             except AssemblerException as exc:
                 # trick for adding more infos to the exception
                 exc.args = (exc.args[0] + ' ' + str(self),)
+                exc.located = True
                 raise exc from None
             except:
                 # here we have a non-AssemblerException, so we
@@ -129,4 +130,10 @@ class Directive(Statement):
                              2 if key.upper() == 'DEFINE' else 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
-        assembler.directives[key](self)
+        try:
+            assembler.directives[key](self)
+        except AssemblerException as exc:
+            if not exc.located:
+                exc.args = (exc.args[0] + ' ' + str(self),)
+                exc.located = True
+            raise exc from None
-- 
2.43.0


From 9022aa15cd30cd577a37503c6104450ba7ccec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 26/97] fix: 8086 instructions with unexpected extra operands
 are rejected

---
 necroassembler/cpu/intel8086.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..012d1e5 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -553,7 +553,11 @@ OPCODES_TABLE = (
     (0xD004, 'SHL', _Eb),
     (0xD104, 'SHL', _Ev),
     (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD105, 'SHR', _Ev),
+    (0xD004, 'SHL', _Eb, _1),
+    (0xD104, 'SHL', _Ev, _1),
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -590,7 +594,8 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            # no operand must be left
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From c4e5d7ed7595587ad2399cda2df3f1c3f9b70e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 27/97] fix: 8086 MOV AL,[addr] has a 16 bit address

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 012d1e5..bb72ee3 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -207,7 +207,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
-- 
2.43.0


From 3b482074ef7264b94cfff95398bdfc6f18f5aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 28/97] fix: 8086 MOV mem,imm and POP mem emit their ModRM byte

---
 necroassembler/cpu/intel8086.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index bb72ee3..140e807 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -453,7 +453,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -506,8 +506,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
-- 
2.43.0


From 6e40a9ff4b4da13dbfd894a628ef27e2ceb0da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 29/97] fix: 8086 labels following a ModRM byte are written to
 their own field

---
 necroassembler/cpu/intel8086.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 140e807..0c62272 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=2,
             signed=True))
     return blob
 
@@ -182,13 +182,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=modrm['offset']))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=modrm['offset']))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -299,7 +299,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
@@ -587,6 +587,8 @@ class Intel8086OpCode:
             skip = False
             full_blob = b''
             for arg in args:
+                # where the blob of this operand will start
+                modrm['offset'] = 1 + len(full_blob)
                 delta_and_blob = arg(instr, self.assembler, index, modrm)
                 if not delta_and_blob or not delta_and_blob[0]:
                     skip = True
-- 
2.43.0


From 3fde316e7f06a75a85bce1da6a196bf681587b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 30/97] fix: 8086 [BP] is not a direct address

---
 necroassembler/cpu/intel8086.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 0c62272..d00a1f1 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -37,8 +37,9 @@ def _get_modrm_mod(arg):
         return 0b00, 0b100, 1, None
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
+    # mod 0b00 would mean a direct address
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
-- 
2.43.0


From 79c86b11c6fffd1d85753c8fb6b051d297c284ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 31/97] fix: far pointers (segment:offset) are no more mistaken
 for misplaced labels

---
 necroassembler/tokenizer.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index d56434e..7705935 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -80,10 +80,16 @@ class Tokenizer:
             return
         self.current_token += char
 
-    def _token_spaces(self, char):
+    def _flush_token(self):
         if self.current_token:
+            # labels are allowed only as the first token
+            if self.current_token.endswith(':'):
+                raise InvalidLabel(self)
             self.tokens.append(self.current_token)
         self.current_token = ''
+
+    def _token_spaces(self, char):
+        self._flush_token()
         if char in ('\n', '\r', ';'):
             if self.tokens:
                 if self.tokens[0].startswith('.'):
@@ -99,13 +105,15 @@ class Tokenizer:
                 self.state = self._state_token
 
     def _token_brackets(self, char):
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self._flush_token()
         self.tokens.append(char)
-        self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens or not self.current_token:
+        # a colon in the middle of an argument (like segment:offset)
+        if self.tokens and self.current_token:
+            self.current_token += ':'
+            return
+        if not self.current_token:
             raise InvalidLabel(self)
         self.tokens.append(self.current_token)
         self.statements.append(
@@ -115,9 +123,7 @@ class Tokenizer:
         self.tokens = []
 
     def _token_string(self):
-        if self.current_token:
-            self.tokens.append(self.current_token)
-        self.current_token = ''
+        self._flush_token()
         self.quote_line = self.line
         self.state = self._state_string
 
@@ -126,9 +132,7 @@ class Tokenizer:
         if self.current_token.upper() + '\'' in self.quoted_names:
             self.current_token += '\''
             return
-        if self.current_token:
-            self.tokens.append(self.current_token)
-        self.current_token = ''
+        self._flush_token()
         self.quote_line = self.line
         self.state = self._state_char
 
-- 
2.43.0


From 64bfeb6ef249992a41958fdc74e40f8ffd444599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 32/97] fix: 68000 index registers without a size are case
 insensitive

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..446875a 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
-- 
2.43.0


From 68e43166d6b78ec55b68ec2c369fd10d3bb836bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 33/97] fix: accept 68000 DBT.W and DBF.W

---
 necroassembler/cpu/mc68000.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 446875a..54b57c4 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -55,9 +55,10 @@ def _reg(token):
 
 
 def _cond(token):
-    if token[0:2].upper() == 'RA':
+    condition = token.split('.')[0].upper()
+    if condition == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(condition)
 
 
 def _indexed_reg(token):
-- 
2.43.0


From 1202353b7d874e75427ed91a9f97a15accfdbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 34/97] fix: 68000 instructions with unexpected extra operands
 are rejected

---
 necroassembler/cpu/mc68000.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 54b57c4..9b2d838 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -249,6 +249,14 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    # same as above, but for the last operand of an instruction
+    def _last_mode(self, instr, start_index, offset, size, blacklist=()):
+        index, m, xn, data = self._mode(
+            instr, start_index, offset, size, blacklist)
+        if index != len(instr.tokens):
+            raise InvalidMode(instr)
+        return m, xn, data
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -265,7 +273,7 @@ class AssemblerMC68000(Assembler):
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -288,7 +296,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -304,7 +312,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -314,7 +322,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -324,7 +332,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -340,7 +348,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -350,13 +358,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -409,7 +417,7 @@ class AssemblerMC68000(Assembler):
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From fe9042afd9c90378522e36920ed6cf80f8de056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 35/97] fix: 68000 MOVE.B has no address register source

---
 necroassembler/cpu/mc68000.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 9b2d838..c9f44ee 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -269,7 +269,9 @@ class AssemblerMC68000(Assembler):
     @opcode('move', 'move.w', 'move.b', 'move.l')
     def _move(self, instr):
         op_size, s = _s_dark(instr.tokens[0])
-        next_index, src_m, src_xn, src_data = self._mode(instr, 1, 0, op_size)
+        # address registers have no byte size
+        next_index, src_m, src_xn, src_data = self._mode(
+            instr, 1, 0, op_size, blacklist=('An',) if op_size == 1 else ())
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-- 
2.43.0


From f7ed0ba8711fe3404b8dd6311c70ecffe0d3b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 36/97] fix: reject 68000 short branches with a displacement of
 0

---
 necroassembler/cpu/mc68000.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index c9f44ee..edc2da4 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_be16u, pack_be16u, pack_be32u
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AssemblerException, NotInBitRange
 
 
 class InvalidMode(AssemblerException):
@@ -101,6 +101,13 @@ def _s_middle(token):
     return 2, 0
 
 
+# a short branch with a displacement of 0 means that a word displacement follows
+def _short_displacement(value):
+    if value == 0:
+        raise NotInBitRange(value, 8)
+    return value
+
+
 class AssemblerMC68000(Assembler):
 
     hex_prefixes = ('$',)
@@ -391,7 +398,10 @@ class AssemblerMC68000(Assembler):
                                                     bits_size=8,
                                                     bits=(7, 0),
                                                     alignment=2,  # here is safe to check for alignment
+                                                    filter=_short_displacement,
                                                     relative=self.pc+2)
+                if self.parse_integer(instr.tokens[1], 8, True) == 0:
+                    raise NotInBitRange(value, 8)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
             elif op_size == 2:
                 value = self.parse_integer_or_label(instr.tokens[1],
-- 
2.43.0


From b4aa044e6cd192436a2bfc2ae48ac79ff3182ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 37/97] fix: MIPS32 div, divu, mult, multu, nor, or, sub, subu
 and xor can be assembled

---
 necroassembler/cpu/mips32.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..ee12bc9 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -191,27 +191,27 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
@@ -243,15 +243,15 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-- 
2.43.0


From 65c7bf4bfdb78bfa370d44b584241c8d0d2fb8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 38/97] fix: MIPS32 sltu and sltiu opcodes

---
 necroassembler/cpu/mips32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index ee12bc9..49269fe 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -275,7 +275,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
@@ -283,7 +283,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
-- 
2.43.0


From b1852f0c0431899754112f1aefdd1778d4a1b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 39/97] fix: MIPS32 andi, ori and xori immediates are unsigned

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 49269fe..7728abb 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -187,7 +187,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
@@ -215,7 +215,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -255,7 +255,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
-- 
2.43.0


From 694f5daf02113570e037ccac8b32e3345a425b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 40/97] fix: MIPS32 jalr saves the return address in $ra

---
 necroassembler/cpu/mips32.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 7728abb..bb0f91a 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -141,10 +141,10 @@ class AssemblerMIPS32(Assembler):
             label, = instr.apply(self._abs_label)
             return self._build_opcode(0, ((31, 26), op), ((25, 0), label))
 
-    def _jump_r(self, instr, func):
+    def _jump_r(self, instr, func, rd=0):
         if instr.match(REGS):
             rs, = instr.apply(_reg)
-            return self._build_opcode(0, ((25, 21), rs), ((5, 0), func))
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), rd), ((5, 0), func))
 
     def _load_store(self, instr, op):
         if instr.match(REGS, IMMEDIATE, '(', REGS, ')'):
@@ -311,7 +311,8 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        # the return address is in $ra
+        return self._jump_r(instr, 0b001001, rd=31)
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From 8c4d3a1fe588c84b09712cb063764dd2ffb14526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 41/97] fix: reject misaligned MIPS32 branch targets instead of
 truncating them

---
 necroassembler/cpu/mips32.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index bb0f91a..4d08ee9 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits, pack_le32u, pack_be32u
-from necroassembler.exceptions import LabelNotAllowed, NotInBitRange
+from necroassembler.exceptions import AlignmentError, LabelNotAllowed, NotInBitRange
 
 REGS_BASE = ('$0', '$1', '$2', '$3', '$4', '$5',
              '$6', '$7', '$8', '$9', '$10', '$11',
@@ -61,12 +61,16 @@ class AssemblerMIPS32(Assembler):
                                            size=4) >> 2
 
     def _rel_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits_size=18,
-                                           bits=(15, 0),
-                                           filter=lambda x: x >> 2,
-                                           relative=self.pc + 4,
-                                           size=4) >> 2
+        value = self.parse_integer_or_label(label=token,
+                                            bits_size=18,
+                                            bits=(15, 0),
+                                            alignment=4,
+                                            filter=lambda x: x >> 2,
+                                            relative=self.pc + 4,
+                                            size=4)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
 
     def _immediate32(self, high):
         def _high(token):
-- 
2.43.0


From 21925977e7f37307072beaff82d2914359cd98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 42/97] fix: MIPS32 jumps out of their 256MB region are
 rejected, numbers in the region accepted

---
 necroassembler/cpu/mips32.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 4d08ee9..db263ea 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -53,12 +53,23 @@ class AssemblerMIPS32(Assembler):
         return value
 
     def _abs_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits=(25, 0),
-                                           bits_size=32,
-                                           filter=lambda x: (
-                                               x & 0x0fffffff) >> 2,
-                                           size=4) >> 2
+        region = (self.pc + 4) & 0xf0000000
+
+        def _target(address):
+            # a jump cannot leave its 256MB region
+            if address & 0xf0000000 != region:
+                raise NotInBitRange(address, 28, token)
+            return (address & 0x0fffffff) >> 2
+
+        value = self.parse_integer_or_label(label=token,
+                                            bits=(25, 0),
+                                            bits_size=32,
+                                            filter=_target,
+                                            size=4)
+        # a plain number could be an offset in the current region
+        if value > 0x0fffffff:
+            return _target(value)
+        return value >> 2
 
     def _rel_label(self, token):
         value = self.parse_integer_or_label(label=token,
-- 
2.43.0


From aacc1745f39855c18fda444a7dfbc78b1b343fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 43/97] fix: Thumb LDRH with a register offset opcode

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..0077ee2 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -317,7 +317,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-- 
2.43.0


From a17db7c786a73391b58118b20c0ff9a9dfc1fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 44/97] fix: Thumb STR with an immediate offset is no more
 encoded as LDR

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 0077ee2..386206e 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -348,7 +348,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
                 low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From 8ae499cd4317603394f120079c281bcf137a680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 45/97] fix: Thumb register lists are case insensitive

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 386206e..599719c 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -97,7 +97,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
-- 
2.43.0


From 2b6968c7b5c50f13569f815be5455c4f59578f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 46/97] fix: accept a Thumb BL with a displacement of 0

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 599719c..88d9416 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -369,7 +369,7 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
+        if address is not None:
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From 1dfb66faa7c4cd088cc27587c79483573523d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 47/97] fix: accept every kind of literal in Thumb SWI

---
 necroassembler/cpu/thumb.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 88d9416..c5f941b 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, LabelNotAllowed)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -19,13 +19,8 @@ def _label(token):
     return token and not token.startswith('#')
 
 
-def _interrupt(token):
-    return token.isdigit()
-
-
 IMMEDIATE = _immediate
 LABEL = _label
-INTERRUPT = _interrupt
 
 
 def low_reg(reg):
@@ -459,8 +454,11 @@ class AssemblerThumb(Assembler):
 
     @opcode('SWI')
     def _swi(self, instr):
-        if instr.match(INTERRUPT):
-            return self._build_opcode(0b1101111100000000, ((7, 0), int(instr.tokens[1])))
+        if instr.match(LABEL):
+            interrupt = self.parse_integer(instr.tokens[1], 8, False)
+            if interrupt is None:
+                raise LabelNotAllowed()
+            return self._build_opcode(0b1101111100000000, ((7, 0), interrupt))
 
     @opcode('PUSH')
     def _push(self, instr):
-- 
2.43.0


From 5b60adea51f2a8dbf8f17f98642596f53d65a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 48/97] fix: Thumb LDR from PC reaches the whole forward range
 and rejects backward offsets

---
 necroassembler/cpu/thumb.py | 39 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index c5f941b..00f4588 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,8 @@
 from necroassembler import Assembler, opcode
-from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
+from necroassembler.utils import in_bit_range, pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, LabelNotAllowed)
+    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, LabelNotAllowed,
+    AlignmentError, NotInBitRange)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -68,15 +69,31 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    # unsigned offset, a multiple of scale
+    def _scaled(self, arg, bits, scale):
+        value = self.parse_integer(arg[1:], bits + 1, True)
+        if value is None:
+            raise InvalideImmediateValue()
+        return self._unscale(arg, value, bits, scale)
+
+    def _unscale(self, arg, value, bits, scale):
+        if not in_bit_range(value, bits):
+            raise NotInBitRange(value, bits)
+        if value % scale != 0:
+            raise AlignmentError(arg)
+        return value // scale
+
     def _word8(self, arg):
-        return self.parse_integer_or_label(label=arg[1:],
-                                           size=2,
-                                           bits_size=8,
-                                           bits=(7, 0),
-                                           alignment=4,
-                                           filter=lambda x: x >> 2,
-                                           # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+        value = self.parse_integer_or_label(label=arg[1:],
+                                            size=2,
+                                            bits_size=11,
+                                            bits=(7, 0),
+                                            alignment=4,
+                                            filter=lambda x: self._unscale(
+                                                arg, x, 10, 4),
+                                            # bit 1 of pc must be turned off
+                                            relative=(self.pc + 4) & ~(0b10))
+        return self._unscale(arg, value, 10, 4)
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
@@ -279,7 +296,7 @@ class AssemblerThumb(Assembler):
     def _ldr(self, instr):
         if instr.match(LOW_REGS, '[', PC, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
-- 
2.43.0


From 10482a20d9b2bf160b8b0c7f674abe22e88cbf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 49/97] fix: Thumb LDR from SP has an unsigned 10 bit offset,
 not relative to PC

---
 necroassembler/cpu/thumb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 00f4588..6aa3cb7 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -309,8 +309,9 @@ class AssemblerThumb(Assembler):
             return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            rd, imm = instr.apply(
+                low_reg, None, None, lambda arg: self._scaled(arg, 10, 4), None)
+            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm))
 
     @opcode('LDRB')
     def _ldrb(self, instr):
-- 
2.43.0


From 308b1209b3fbaa0e611371cd1349b82e908dfd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 50/97] fix: reject misaligned Thumb LDR and STR offsets
 instead of truncating them

---
 necroassembler/cpu/thumb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 6aa3cb7..fe11c1f 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -305,8 +305,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, lambda arg: self._scaled(arg, 7, 4), None)
+            return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(
@@ -360,8 +360,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, lambda arg: self._scaled(arg, 7, 4), None)
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From 31904e7f2e7abf5ebdf7d10ee61c615c43dc7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 51/97] fix: Thumb LDRH immediate offset is a number of bytes

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index fe11c1f..ff84942 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -334,7 +334,7 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
+                low_reg, None, low_reg, lambda arg: self._scaled(arg, 6, 2), None)
             return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
-- 
2.43.0


From 46304abc83ce750cd5a8dfa16f9a7424eecb6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 52/97] fix: Thumb ADD rd,PC/SP,#imm immediate is a number of
 bytes

---
 necroassembler/cpu/thumb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index ff84942..5a16092 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -176,10 +176,12 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(
+                low_reg, None, lambda arg: self._scaled(arg, 10, 4))
             return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(
+                low_reg, None, lambda arg: self._scaled(arg, 10, 4))
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
             imm, = instr.apply(None, self._imm)
-- 
2.43.0


From 9064bd56a5b8f151a53810551b79294104e1335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 53/97] fix: Thumb ADD SP,#imm can be assembled

---
 necroassembler/cpu/thumb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 5a16092..0da4f37 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -184,8 +184,12 @@ class AssemblerThumb(Assembler):
                 low_reg, None, lambda arg: self._scaled(arg, 10, 4))
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            imm = self.parse_integer(instr.tokens[2][1:], 10, True)
+            if imm is None:
+                raise InvalideImmediateValue()
+            sign = 1 if imm < 0 else 0
+            imm = self._unscale(instr.tokens[2], abs(imm), 9, 4)
+            return self._build_opcode(0b1011000000000000, ((7, 7), sign), ((6, 0), imm))
 
     @opcode('SUB')
     def _sub(self, instr):
-- 
2.43.0


From 43397aa57a86ff32e19cb0b36e4b630d6985d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 54/97] fix: Thumb LSR and ASR shift from 1 to 32 positions

---
 necroassembler/cpu/thumb.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 0da4f37..680d013 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -69,6 +69,13 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    # right shifts are from 1 to 32 (encoded as 0)
+    def _right_shift(self, arg):
+        value = self._imm(arg)
+        if value < 1 or value > 32:
+            raise NotInBitRange(value, 5)
+        return value & 0x1f
+
     # unsigned offset, a multiple of scale
     def _scaled(self, arg, bits, scale):
         value = self.parse_integer(arg[1:], bits + 1, True)
@@ -144,14 +151,14 @@ class AssemblerThumb(Assembler):
     @opcode('LSR')
     def _lsr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+            rd, rs, imm = instr.apply(low_reg, low_reg, self._right_shift)
             return self._build_opcode(0b0000100000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
         return self._alu(instr, 0b0011)
 
     @opcode('ASR')
     def _asr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+            rd, rs, imm = instr.apply(low_reg, low_reg, self._right_shift)
             return self._build_opcode(0b0001000000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
         return self._alu(instr, 0b0100)
 
-- 
2.43.0


From 12d87d803d4d388fee07049024440ee055b24b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 55/97] fix: Thumb STRB can be assembled

---
 necroassembler/cpu/thumb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 680d013..527ee0d 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -378,7 +378,15 @@ class AssemblerThumb(Assembler):
 
     @opcode('STRB')
     def _strb(self, instr):
-        pass
+        if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
+            rd, rb, ro = instr.apply(
+                low_reg, None, low_reg, low_reg, None)
+            return self._build_opcode(0b0101010000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+
+        if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
+            rd, rb, imm = instr.apply(
+                low_reg, None, low_reg, lambda arg: self._scaled(arg, 5, 1), None)
+            return self._build_opcode(0b0111000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRH')
     def _strh(self, instr):
-- 
2.43.0


From 0fdef3765bcb422164aa49277d470bd17d4de6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 56/97] fix: reject misaligned Thumb branch displacements
 instead of truncating them

---
 necroassembler/cpu/thumb.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 527ee0d..1f3e76a 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -53,15 +53,18 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
-        return self.parse_integer_or_label(label=arg,
-                                           size=2,
-                                           bits_size=(
-                                               bits[0] - bits[1]) + 1 + (alignment//2),
-                                           bits=bits,
-                                           filter=lambda x: x >> (
-                                               alignment//2),
-                                           alignment=alignment,
-                                           relative=self.pc + 4)
+        value = self.parse_integer_or_label(label=arg,
+                                            size=2,
+                                            bits_size=(
+                                                bits[0] - bits[1]) + 1 + (alignment//2),
+                                            bits=bits,
+                                            filter=lambda x: x >> (
+                                                alignment//2),
+                                            alignment=alignment,
+                                            relative=self.pc + 4)
+        if value % alignment != 0:
+            raise AlignmentError(arg)
+        return value
 
     def _imm(self, arg):
         value = self.parse_integer(arg[1:], 8, False)
@@ -404,6 +407,8 @@ class AssemblerThumb(Assembler):
 
         address = self.parse_integer(offset, 23, signed=True)
         if address is not None:
+            if address % 2 != 0:
+                raise AlignmentError(offset)
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From 5528c380d2b2de951707bf76095f0ca7b3edbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 57/97] fix: [C28] every PowerPC form of a mnemonic uses its
 own base opcode

---
 necroassembler/cpu/powerpc.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..b5bb3eb 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1324,23 +1324,22 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, base, condition):
+        self.conditions.append((base, condition))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for base, condition in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1360,17 +1359,18 @@ class AssemblerPowerPC(Assembler):
             # already defined ?
             if name.upper() in self.instructions:
                 if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
+                    self.instructions[name.upper()].add_condition(
+                        entry[0], entry[2])
                 else:
-                    self.instructions[name.upper()].add_condition(None)
+                    self.instructions[name.upper()].add_condition(
+                        entry[0], None)
                 continue
 
-            base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
+            powerpc_opcode = PowerPCOPCode(self, name)
             if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode.add_condition(entry[0], entry[2])
             else:
-                powerpc_opcode.add_condition(None)
+                powerpc_opcode.add_condition(entry[0], None)
             self.register_instruction(entry[1], powerpc_opcode)
 
 
-- 
2.43.0


From 4c9e8017d34b66878d7530847a9afcbdd28315e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 58/97] fix: [C28] unsupported PowerPC operand types do not
 hide the supported forms

---
 necroassembler/cpu/powerpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index b5bb3eb..4a5b6db 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1337,6 +1337,9 @@ class PowerPCOPCode:
             if condition is None:
                 if len(instr.tokens) == 1:
                     return pack_be32u(base)
+            elif None in [item[2] for item in condition]:
+                # operand types not supported (yet)
+                continue
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
                     pack_bits(base, *[
-- 
2.43.0


From 2bd6aa57531fd0f1ba43332d35634bf12d17bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 59/97] fix: [C28] r0 is a valid PowerPC general register

---
 necroassembler/cpu/powerpc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 4a5b6db..a152ba7 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -9,8 +9,6 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
-- 
2.43.0


From 284db270aa3899727268f49321450b8067970e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 60/97] fix: [C28] PowerPC mcrfs source field is 3 bits wide

---
 necroassembler/cpu/powerpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index a152ba7..f0428d9 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -695,8 +695,8 @@ OPCODES_TABLE = [
     [0xfc000040, "fcmpo",   [[23, 3, _num],    [16, 5, _freg], [11, 5, _freg]]],
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
-    [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 3, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
-- 
2.43.0


From 8f768429504ff38c4aed28f9ca41f81d77f4534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 61/97] fix: [C28] PowerPC branch targets use the whole field
 and must be word aligned

---
 necroassembler/cpu/powerpc.py | 39 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index f0428d9..7371d61 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,5 +1,6 @@
 from necroassembler import Assembler
 from necroassembler.utils import pack_be32u, pack_bits
+from necroassembler.exceptions import AlignmentError, NotInBitRange
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
 FREGS = tuple(['f{0}'.format(n) for n in range(0, 32)])
@@ -30,27 +31,39 @@ def _freg(token, assembler=None, bits=None):
     return reg in FREGS
 
 
+def _branch_target(token, assembler, bits, relative):
+    # the two lower bits (always zero) are not stored
+    total_bits = bits[0] - bits[1] + 3
+
+    def check_sign(address):
+        # absolute addresses are sign extended by the cpu
+        if address >= 1 << (total_bits - 1):
+            raise NotInBitRange(address, total_bits)
+        return address >> 2
+
+    value = assembler.parse_integer_or_label(token,
+                                             size=4,
+                                             bits_size=total_bits,
+                                             bits=bits,
+                                             alignment=4,
+                                             filter=check_sign,
+                                             relative=relative,
+                                             signed=True)
+    if value % 4 != 0:
+        raise AlignmentError(token)
+    return value >> 2
+
+
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
+        return _branch_target(token, assembler, bits, assembler.pc)
 
     return token not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2)
+        return _branch_target(token, assembler, bits, 0)
     return token not in GREGS+FREGS
 
 
-- 
2.43.0


From ad9ca752a09dd04bd6f3606fb092866092202d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 62/97] fix: [C30] an ELF linker can link more than one program

---
 necroassembler/linker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..d13a6e4 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -128,12 +128,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From 7e6b8d0d7f9a335d943d504bee6f9fa3a38cee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 63/97] fix: [C30] the ELF symbol table starts with the null
 symbol

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index d13a6e4..569db92 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -103,7 +103,8 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is always the null one
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-- 
2.43.0


From 706c82b57d11f3a9bb0bcbcf8d6a924c76f46729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 64/97] fix: [C30] ELF symbol values are relative to the
 section of the symbol

---
 necroassembler/linker.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 569db92..ef717a5 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -108,14 +108,18 @@ class ELF:
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
+            section = assembler.sections[symbol_data['section']]
+            # in relocatable files symbols are relative to their section
+            value = assembler.get_label_absolute_address(
+                symbol_data) - section['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
-                               0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
+                               symbol_data['elf_string_offset'], value, 0,
+                               0x10, 0, section['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               section['elf_section_index'] + 1, value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From 649c9f780597ee5c705dccd8742ef25a341fc9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 65/97] fix: [C30] exported labels outside of any section are
 absolute symbols

---
 necroassembler/linker.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index ef717a5..9653401 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -108,18 +108,22 @@ class ELF:
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-            section = assembler.sections[symbol_data['section']]
-            # in relocatable files symbols are relative to their section
-            value = assembler.get_label_absolute_address(
-                symbol_data) - section['start']
+            value = assembler.get_label_absolute_address(symbol_data)
+            # SHN_ABS
+            section_index = 0xfff1
+            if symbol_data['section'] is not None:
+                section = assembler.sections[symbol_data['section']]
+                section_index = section['elf_section_index'] + 1
+                # in relocatable files symbols are relative to their section
+                value -= section['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
                                symbol_data['elf_string_offset'], value, 0,
-                               0x10, 0, section['elf_section_index'] + 1)
+                               0x10, 0, section_index)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               section['elf_section_index'] + 1, value, 0)
+                               section_index, value, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From f2fd4e389ac94726ec82a4eb675373545ce62eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 66/97] fix: [C32] the iNES bank counts are the bytes 4 and 5
 of the header

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From a463f767ed919c1505b5ac223a3d0f2a39c53d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 67/97] fix: [C34] the PS-X EXE stack pointer is at offset 0x30

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0


From 40280f463bf9e0ea6e203050733b8b4b105366db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 68/97] fix: [C34] the Mega Drive checksum supports roms of odd
 size

---
 necroassembler/platforms/genesis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 938991f..37e833e 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -13,7 +13,9 @@ def main():
     header_checksum = 0
     for i in range(0x200, len(asm.assembled_bytes), 2):
         high = asm.assembled_bytes[i]
-        low = asm.assembled_bytes[i+1]
+        # the last byte of an odd sized rom is the high one of its word
+        low = asm.assembled_bytes[i+1] if i + \
+            1 < len(asm.assembled_bytes) else 0
         header_checksum += (high << 8) | low
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
-- 
2.43.0


From fcf32ca4b7572f89a22d067bfaf18ec3244e3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 69/97] fix: [C34] the PS-X EXE header is complete without code
 too

---
 necroassembler/platforms/psx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index fdb170e..a911ee2 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -30,6 +30,8 @@ def main():
         output.write(
             'Sony Computer Entertainment Inc. for Europe area'.encode('ascii'))
         output.seek(0x800)
+        # the header is always complete, even without code
+        output.truncate()
         output.write(asm.assembled_bytes)
 
 
-- 
2.43.0


From 414909308d8debd83185ad6440816cd7cb91d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 70/97] fix: [C05] a label added to the LR35902 SP is not
 relative to pc

---
 necroassembler/cpu/lr35902.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 5af1031..acf9f76 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -61,6 +61,14 @@ class AssemblerLR35902(Assembler):
                                             relative=self.pc + 2)
         return pack_8s(value)
 
+    # signed number (not a distance from pc)
+    def _data8s(self, arg):
+        value = self.parse_integer_or_label(label=arg, bits_size=8,
+                                            offset=1,
+                                            size=1,
+                                            signed=True)
+        return pack_8s(value)
+
     def _data16(self, arg):
         value = self.parse_integer_or_label(
             label=arg, bits_size=16, offset=1, size=2)
@@ -122,7 +130,7 @@ class AssemblerLR35902(Assembler):
 
             if instr.match(REGS16, VALUE):
                 if self._reg_name(instr.tokens[1]) + '_r8' in kwargs:
-                    reg16, value = instr.apply(self._reg_name, self._rel8)
+                    reg16, value = instr.apply(self._reg_name, self._data8s)
                     return pack_byte(kwargs[reg16 + '_r8']) + value
                 reg16, value = instr.apply(self._reg_name, self._data16)
                 return pack_byte(kwargs[reg16 + '_d16']) + value
@@ -213,9 +221,9 @@ class AssemblerLR35902(Assembler):
         if instr.match('HL', VALUE):
             value = None
             if instr.tokens[2].upper().startswith('SP+'):
-                value = self._rel8(instr.tokens[2][3:])
+                value = self._data8s(instr.tokens[2][3:])
             elif instr.tokens[2].upper().startswith('SP-'):
-                value = self._rel8(instr.tokens[2][2:])
+                value = self._data8s(instr.tokens[2][2:])
             if value is not None:
                 return pack_byte(0xF8) + value
         return self._build_opcode(instr,
-- 
2.43.0


From f0a8b34ae633b5ec293b1fa7edad5462abc53202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 71/97] fix: [C06] a branch from a misaligned address is not
 silently truncated

---
 necroassembler/cpu/mips32.py  |  7 ++++++-
 necroassembler/cpu/powerpc.py |  2 ++
 necroassembler/cpu/thumb.py   | 15 ++++++++++++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index db263ea..e8f8239 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -72,11 +72,16 @@ class AssemblerMIPS32(Assembler):
         return value >> 2
 
     def _rel_label(self, token):
+        def aligned(offset):
+            if offset % 4 != 0:
+                raise AlignmentError(token)
+            return offset >> 2
+
         value = self.parse_integer_or_label(label=token,
                                             bits_size=18,
                                             bits=(15, 0),
                                             alignment=4,
-                                            filter=lambda x: x >> 2,
+                                            filter=aligned,
                                             relative=self.pc + 4,
                                             size=4)
         if value % 4 != 0:
diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 7371d61..a8f756a 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -39,6 +39,8 @@ def _branch_target(token, assembler, bits, relative):
         # absolute addresses are sign extended by the cpu
         if address >= 1 << (total_bits - 1):
             raise NotInBitRange(address, total_bits)
+        if address % 4 != 0:
+            raise AlignmentError(token)
         return address >> 2
 
     value = assembler.parse_integer_or_label(token,
diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 1f3e76a..5d8cfa2 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -53,13 +53,17 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
+        def aligned(offset):
+            if offset % alignment != 0:
+                raise AlignmentError(arg)
+            return offset >> (alignment//2)
+
         value = self.parse_integer_or_label(label=arg,
                                             size=2,
                                             bits_size=(
                                                 bits[0] - bits[1]) + 1 + (alignment//2),
                                             bits=bits,
-                                            filter=lambda x: x >> (
-                                                alignment//2),
+                                            filter=aligned,
                                             alignment=alignment,
                                             relative=self.pc + 4)
         if value % alignment != 0:
@@ -414,6 +418,11 @@ class AssemblerThumb(Assembler):
             address1 = address & 0x7ff
             return self._build_opcode(0b1111000000000000, ((10, 0), address0)) + self._build_opcode(0b1111100000000000, ((10, 0), address1))
 
+        def aligned(address):
+            if address % 2 != 0:
+                raise AlignmentError(offset)
+            return address
+
         self.add_label_translation(label=offset,
                                    size=2,
                                    bits_size=23,
@@ -421,7 +430,7 @@ class AssemblerThumb(Assembler):
                                    alignment=2,
                                    relative=self.pc + 4,
                                    # get high 11 bits (after >> 1)
-                                   filter=lambda x: x >> 12)
+                                   filter=lambda x: aligned(x) >> 12)
         self.add_label_translation(label=offset,
                                    offset=2,
                                    size=2,
-- 
2.43.0


From be4583f9fc35e36ccf43500dab3d279dbdb6fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 72/97] fix: [C11] a malformed or too big number used as a
 label is an invalid label

---
 necroassembler/statements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 81f0583..57835ab 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -112,7 +112,12 @@ class Label(Statement):
             raise LabelAlreadyDefined(self)
         if not is_valid_name(key):
             raise InvalidLabel(self)
-        if assembler.parse_integer(key, 64, False) is not None:
+        try:
+            is_number = assembler.parse_integer(key, 64, False) is not None
+        except (AssemblerException, ValueError):
+            # a malformed or too big number
+            is_number = True
+        if is_number:
             raise InvalidLabel(self)
         assembler.labels[key] = {
             'base': assembler.org_counter,
-- 
2.43.0


From 79b3a002c105e302455cc72480c770db16c4c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 73/97] fix: [C11] a macro called with too few arguments is an
 assembler error

---
 necroassembler/statements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 57835ab..2bb5900 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -32,6 +32,8 @@ class Instruction(Statement):
 
         if key in assembler.macros:
             macro = assembler.macros[key]
+            if len(self.tokens) - 1 < len(macro.args):
+                raise InvalidOpCodeArguments(self)
             macro.assemble(assembler, self.tokens)
             return
 
-- 
2.43.0


From 63176735ac2b3d84575bc7ca01aaca7be1ca346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 74/97] fix: [C11] a failed macro call does not change the
 macro

---
 necroassembler/macros.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..fb992f7 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -34,5 +34,7 @@ class Macro:
                 
             substitute_with_dict(instr.tokens, macro_dict, 0)
 
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                instr.assemble(assembler)
+            finally:
+                instr.tokens = original_tokens
-- 
2.43.0


From 2983393560cf7ca96a4176a2f3f58f72f632ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 75/97] fix: [C11] a rejected instruction leaves no label
 translation behind

---
 necroassembler/assembler.py  | 6 ++++++
 necroassembler/statements.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index d5af65f..16d294d 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -535,6 +535,12 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         self.defines[instr.tokens[1]] = instr.tokens[2]
 
+    def discard_label_translations(self):
+        # forget the translations of a statement that has not been assembled
+        end = len(self.assembled_bytes)
+        for address in [x for x in self.labels_addresses if x >= end]:
+            del self.labels_addresses[address]
+
     def append_assembled_bytes(self, blob):
         self.assembled_bytes += blob
         self.org_counter += len(blob)
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 2bb5900..fef48be 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -47,6 +47,7 @@ class Instruction(Statement):
                     # do not add 'self' here, will be added in the exception
                     raise InvalidInstruction()
             except AssemblerException as exc:
+                assembler.discard_label_translations()
                 # trick for adding more infos to the exception
                 exc.args = (exc.args[0] + ' ' + str(self),)
                 exc.located = True
@@ -54,6 +55,7 @@ class Instruction(Statement):
             except:
                 # here we have a non-AssemblerException, so we
                 # need to report the whole exceptions chain
+                assembler.discard_label_translations()
                 raise InvalidInstruction(self)
         else:
             if len(self.tokens) != 1:
-- 
2.43.0


From eb4441318331440fe97bcecc6b34cb5d6ffbaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 76/97] fix: [C11] a directive with arguments refused by python
 names its location

---
 necroassembler/statements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index fef48be..2d44f97 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -1,5 +1,6 @@
 from necroassembler.exceptions import (InvalidOpCodeArguments, UnknownInstruction, LabelNotAllowedInMacro,
-                                       InvalidInstruction, UnknownDirective, LabelAlreadyDefined, InvalidLabel, AssemblerException)
+                                       InvalidInstruction, UnknownDirective, LabelAlreadyDefined, InvalidLabel, AssemblerException,
+                                       InvalidArgumentsForDirective)
 from necroassembler.utils import substitute_with_dict, is_valid_name
 
 
@@ -146,3 +147,7 @@ class Directive(Statement):
                 exc.args = (exc.args[0] + ' ' + str(self),)
                 exc.located = True
             raise exc from None
+        except (ValueError, IndexError, ArithmeticError):
+            # wrong arguments detected by python, report the whole
+            # exceptions chain
+            raise InvalidArgumentsForDirective(self)
-- 
2.43.0


From c1345accf554d3e0540c689ad507a1c292bec8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 77/97] fix: [C11] a division by zero in an expression is an
 assembler error

---
 necroassembler/assembler.py  | 5 ++++-
 necroassembler/exceptions.py | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 16d294d..4007b88 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -9,7 +9,8 @@ from necroassembler.exceptions import (UnknownLabel, UnsupportedNestedMacro, Not
                                        UnsupportedNestedRepeat,
                                        AlignmentError, NotInBitRange, OnlyForwardAddressesAllowed,
                                        InvalidArgumentsForDirective, LabelNotAllowed, InvalidDefine,
-                                       SectionAlreadyDefined, SymbolAlreadyExported)
+                                       SectionAlreadyDefined, SymbolAlreadyExported,
+                                       DivisionByZero)
 from necroassembler.macros import Macro
 from necroassembler.linker import Dummy
 
@@ -459,6 +460,8 @@ class Assembler:
             elif command == '*':
                 value *= arg_value
             elif command == '/':
+                if arg_value == 0:
+                    raise DivisionByZero()
                 value //= arg_value
             elif command == '&':
                 value &= arg_value
diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index f37b2e7..0ae01cd 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -125,3 +125,7 @@ class InvalidDefine(AssemblerException):
 
 class LabelNotAllowed(AssemblerException):
     message = 'label not allowed here'
+
+
+class DivisionByZero(AssemblerException):
+    message = 'division by zero'
-- 
2.43.0


From 9f77561b9c73c63c88ec571f99a9a33a718e4595 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 78/97] fix: [C24] x86 instructions use exactly the operands
 they are given

---
 necroassembler/cpu/x86.py | 103 ++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 10b4d6b..d1ab9d3 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -744,12 +744,12 @@ OPCODES_TABLE = (
     (0x34, 'XOR', _AL, _Ib),
     (0x35, 'XOR', _rAX, _Ivds),
     (0x37, 'AAA'),
-    (0x38, 'CMP', _Eb),
-    (0x39, 'CMP', _Evqp),
-    (0x3a, 'CMP', _Gb),
-    (0x3b, 'CMP', _Gvqp),
-    (0x3c, 'CMP', _AL),
-    (0x3d, 'CMP', _rAX),
+    (0x38, 'CMP', _Eb, _Gb),
+    (0x39, 'CMP', _Evqp, _Gvqp),
+    (0x3a, 'CMP', _Gb, _Eb),
+    (0x3b, 'CMP', _Gvqp, _Evqp),
+    (0x3c, 'CMP', _AL, _Ib),
+    (0x3d, 'CMP', _rAX, _Ivds),
     (0x3e, 'TAKEN'),
     (0x3f, 'AAS'),
     (0x40, 'INC', _Zv),
@@ -783,9 +783,9 @@ OPCODES_TABLE = (
     (0x63, 'MOVSXD', _Gdqp, _Ed),
     (0x64, 'ALTER'),
     (0x68, 'PUSH', _Ivs),
-    (0x69, 'IMUL', _Gvqp, _Evqp),
+    (0x69, 'IMUL', _Gvqp, _Evqp, _Ivds),
     (0x6a, 'PUSH', _Ibss),
-    (0x6b, 'IMUL', _Gvqp, _Evqp),
+    (0x6b, 'IMUL', _Gvqp, _Evqp, _Ibs),
     (0x6c, 'INS', _Yb, _DX),
     (0x6c, 'INSB'),
     (0x6d, 'INS', _Ywo, _DX),
@@ -835,7 +835,7 @@ OPCODES_TABLE = (
     (0x80, 'AND', _Eb, _Ib),
     (0x80, 'SUB', _Eb, _Ib),
     (0x80, 'XOR', _Eb, _Ib),
-    (0x80, 'CMP', _Eb),
+    (0x80, 'CMP', _Eb, _Ib),
     (0x81, 'ADD', _Evqp, _Ivds),
     (0x81, 'OR', _Evqp, _Ivds),
     (0x81, 'ADC', _Evqp, _Ivds),
@@ -843,7 +843,7 @@ OPCODES_TABLE = (
     (0x81, 'AND', _Evqp, _Ivds),
     (0x81, 'SUB', _Evqp, _Ivds),
     (0x81, 'XOR', _Evqp, _Ivds),
-    (0x81, 'CMP', _Evqp),
+    (0x81, 'CMP', _Evqp, _Ivds),
     (0x82, 'ADD', _Eb, _Ib),
     (0x82, 'OR', _Eb, _Ib),
     (0x82, 'ADC', _Eb, _Ib),
@@ -851,7 +851,7 @@ OPCODES_TABLE = (
     (0x82, 'AND', _Eb, _Ib),
     (0x82, 'SUB', _Eb, _Ib),
     (0x82, 'XOR', _Eb, _Ib),
-    (0x82, 'CMP', _Eb),
+    (0x82, 'CMP', _Eb, _Ib),
     (0x83, 'ADD', _Evqp, _Ibs),
     (0x83, 'OR', _Evqp, _Ibs),
     (0x83, 'ADC', _Evqp, _Ibs),
@@ -859,11 +859,11 @@ OPCODES_TABLE = (
     (0x83, 'AND', _Evqp, _Ibs),
     (0x83, 'SUB', _Evqp, _Ibs),
     (0x83, 'XOR', _Evqp, _Ibs),
-    (0x83, 'CMP', _Evqp),
-    (0x84, 'TEST', _Eb),
-    (0x85, 'TEST', _Evqp),
-    (0x86, 'XCHG', _Gb),
-    (0x87, 'XCHG', _Gvqp),
+    (0x83, 'CMP', _Evqp, _Ibs),
+    (0x84, 'TEST', _Eb, _Gb),
+    (0x85, 'TEST', _Evqp, _Gvqp),
+    (0x86, 'XCHG', _Gb, _Eb),
+    (0x87, 'XCHG', _Gvqp, _Evqp),
     (0x88, 'MOV', _Eb, _Gb),
     (0x89, 'MOV', _Evqp, _Gvqp),
     (0x8a, 'MOV', _Gb, _Eb),
@@ -874,7 +874,7 @@ OPCODES_TABLE = (
     (0x8e, 'MOV', _Sw, _Ew),
     (0x8f, 'POP', _Ev),
     (0x8f, 'POP', _Evq),
-    (0x90, 'XCHG', _Zvqp),
+    (0x90, 'XCHG', _Zvqp, _rAX),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
     (0x90, 'PAUSE'),
@@ -925,8 +925,8 @@ OPCODES_TABLE = (
     (0xa7, 'CMPSW'),
     (0xa7, 'CMPSD'),
     (0xa7, 'CMPSQ'),
-    (0xa8, 'TEST', _AL),
-    (0xa9, 'TEST', _rAX),
+    (0xa8, 'TEST', _AL, _Ib),
+    (0xa9, 'TEST', _rAX, _Ivds),
     (0xaa, 'STOS', _Yb),
     (0xaa, 'STOSB'),
     (0xab, 'STOS', _Ywo),
@@ -979,7 +979,7 @@ OPCODES_TABLE = (
     (0xc1, 'SAL', _Evqp, _Ib),
     (0xc1, 'SHL', _Evqp, _Ib),
     (0xc1, 'SAR', _Evqp, _Ib),
-    (0xc2, 'RETN'),
+    (0xc2, 'RETN', _Iw),
     (0xc3, 'RETN'),
     (0xc3, 'RET'),
     (0xc6, 'MOV', _Eb, _Ib),
@@ -1107,9 +1107,9 @@ OPCODES_TABLE = (
     (0xda, 'FCMOVB', _ST, _EST),
     (0xda, 'FIMUL', _Mdi),
     (0xda, 'FCMOVE', _ST, _EST),
-    (0xda, 'FICOM'),
+    (0xda, 'FICOM', _Mdi),
     (0xda, 'FCMOVBE', _ST, _EST),
-    (0xda, 'FICOMP'),
+    (0xda, 'FICOMP', _Mdi),
     (0xda, 'FCMOVU', _ST, _EST),
     (0xda, 'FISUB', _Mdi),
     (0xda, 'FISUBR', _Mdi),
@@ -1183,10 +1183,10 @@ OPCODES_TABLE = (
     (0xde, 'FIMUL', _Mwi),
     (0xde, 'FMULP', _EST, _ST),
     (0xde, 'FMULP'),
-    (0xde, 'FICOM'),
+    (0xde, 'FICOM', _Mwi),
     (0xde, 'FCOMP5'),
     (0xde, 'FCOMP5'),
-    (0xde, 'FICOMP'),
+    (0xde, 'FICOMP', _Mwi),
     (0xde, 'FCOMPP'),
     (0xde, 'FISUB', _Mwi),
     (0xde, 'FSUBRP', _EST, _ST),
@@ -1258,16 +1258,16 @@ OPCODES_TABLE = (
     (0xf3, 'REP'),
     (0xf4, 'HLT'),
     (0xf5, 'CMC'),
-    (0xf6, 'TEST', _Eb),
-    (0xf6, 'TEST', _Eb),
+    (0xf6, 'TEST', _Eb, _Ib),
+    (0xf6, 'TEST', _Eb, _Ib),
     (0xf6, 'NOT', _Eb),
     (0xf6, 'NEG', _Eb),
-    (0xf6, 'MUL'),
-    (0xf6, 'IMUL'),
-    (0xf6, 'DIV'),
-    (0xf6, 'IDIV'),
-    (0xf7, 'TEST', _Evqp),
-    (0xf7, 'TEST', _Evqp),
+    (0xf6, 'MUL', _Eb),
+    (0xf6, 'IMUL', _Eb),
+    (0xf6, 'DIV', _Eb),
+    (0xf6, 'IDIV', _Eb),
+    (0xf7, 'TEST', _Evqp, _Ivds),
+    (0xf7, 'TEST', _Evqp, _Ivds),
     (0xf7, 'NOT', _Evqp),
     (0xf7, 'NEG', _Evqp),
     (0xf7, 'MUL', _Evqp),
@@ -1300,7 +1300,7 @@ OPCODES_TABLE = (
     (0xf00, 'LTR', _Ew),
     (0xf00, 'VERR', _Ew),
     (0xf00, 'VERW', _Ew),
-    (0xf00, 'JMPE'),
+    (0xf00, 'JMPE', _Ev),
     (0xf01, 'SGDT', _Ms),
     (0xf01, 'VMCALL'),
     (0xf01, 'VMLAUNCH'),
@@ -1763,13 +1763,13 @@ OPCODES_TABLE = (
     (0xf9f, 'SETNLE', _Eb),
     (0xf9f, 'SETG', _Eb),
     (0xfa2, 'CPUID'),
-    (0xfa3, 'BT', _Evqp),
-    (0xfa4, 'SHLD', _Evqp, _Gvqp),
-    (0xfa5, 'SHLD', _Evqp, _Gvqp),
+    (0xfa3, 'BT', _Evqp, _Gvqp),
+    (0xfa4, 'SHLD', _Evqp, _Gvqp, _Ib),
+    (0xfa5, 'SHLD', _Evqp, _Gvqp, _CL),
     (0xfaa, 'RSM'),
     (0xfab, 'BTS', _Evqp, _Gvqp),
-    (0xfac, 'SHRD', _Evqp, _Gvqp),
-    (0xfad, 'SHRD', _Evqp, _Gvqp),
+    (0xfac, 'SHRD', _Evqp, _Gvqp, _Ib),
+    (0xfad, 'SHRD', _Evqp, _Gvqp, _CL),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXRSTOR', _Mstx),
@@ -1790,10 +1790,10 @@ OPCODES_TABLE = (
     (0xfb3, 'BTR', _Evqp, _Gvqp),
     (0xfb6, 'MOVZX', _Gvqp, _Eb),
     (0xfb7, 'MOVZX', _Gvqp, _Ew),
-    (0xfb8, 'JMPE'),
+    (0xfb8, 'JMPE', _Jvds),
     (0xfb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
-    (0xfba, 'BT', _Evqp),
+    (0xfba, 'BT', _Evqp, _Ib),
     (0xfba, 'BTS', _Evqp, _Ib),
     (0xfba, 'BTR', _Evqp, _Ib),
     (0xfba, 'BTC', _Evqp, _Ib),
@@ -1802,8 +1802,8 @@ OPCODES_TABLE = (
     (0xfbd, 'BSR', _Gvqp, _Evqp),
     (0xfbe, 'MOVSX', _Gvqp, _Eb),
     (0xfbf, 'MOVSX', _Gvqp, _Ew),
-    (0xfc0, 'XADD', _Eb),
-    (0xfc1, 'XADD', _Evqp),
+    (0xfc0, 'XADD', _Eb, _Gb),
+    (0xfc1, 'XADD', _Evqp, _Gvqp),
     (0xfc2, 'CMPPS', _Vps, _Wps),
     (0xfc2, 'CMPSS', _Vss, _Wss),
     (0xfc2, 'CMPPD', _Vpd, _Wpd),
@@ -1939,16 +1939,16 @@ class X86OpCode:
         for base, args in self.conditions:
             modrm = {}
             if not args:
-                if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
-                    if self.assembler.bits == 16:
-                        return pack_byte(0x66, base)
                 if instr.tokens[0].upper().startswith('REP'):
                     new_instr = Instruction(
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
-                if len(instr.tokens) == 1:
-                    return pack_byte(base)
-                raise InvalidOpCodeArguments(instr)
+                if len(instr.tokens) > 1:
+                    continue
+                if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
+                    if self.assembler.bits == 16:
+                        return pack_byte(0x66, base)
+                return pack_byte(base)
             if len(instr.tokens) < 2:
                 continue
             index = 1
@@ -1959,6 +1959,10 @@ class X86OpCode:
             else:
                 new_base = [base]
             for arg in args:
+                # missing operand
+                if index >= len(instr.tokens):
+                    skip = True
+                    break
                 delta_base_and_blob = arg(
                     instr, new_base, self.assembler, index, modrm)
                 if not delta_base_and_blob or len(delta_base_and_blob) != 3:
@@ -1968,7 +1972,8 @@ class X86OpCode:
                     new_index, new_base, new_blob = delta_base_and_blob
                     index += new_index
                     full_blob += new_blob
-            if not skip:
+            # all of the operands must be used
+            if not skip and index == len(instr.tokens):
                 return pack_byte(*new_base) + full_blob
 
 
-- 
2.43.0


From ffd3915a1b19a2134fa6553f3e72fab6f94255a6 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 79/97] fix: [C24] x86 64 bit operands need REX.W and sizes
 must agree

---
 necroassembler/cpu/x86.py | 103 +++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 52 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index d1ab9d3..5be0754 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -82,6 +82,32 @@ def _get_modrm_mod(arg):
     raise InvalidOpCodeArguments()
 
 
+# prefixes that could already be in the base (opcode) of an instruction
+PREFIXES = (0x66, 0x67, 0xf2, 0xf3)
+
+
+def _add_rex_w(base):
+    # REX must be the last prefix
+    index = 0
+    while base[index] in PREFIXES:
+        index += 1
+    base.insert(index, 0x48)
+
+
+def _set_bits(assembler, base, modrm, bits):
+    # all of the operands must have the same size
+    if 'bits' in modrm:
+        return modrm['bits'] == bits
+    if bits == 64:
+        if assembler.bits != 64:
+            return False
+        _add_rex_w(base)
+    elif (bits == 16) != (assembler.bits == 16):
+        base.insert(0, 0x66)
+    modrm['bits'] = bits
+    return True
+
+
 def _apply_Z(base, reg, regs):
     value = regs.index(reg.upper())
     base[-1] |= value
@@ -101,26 +127,22 @@ def _Evqp(instr, base, assembler, index, modrm):
     if arg in REGS16:
         modrm['mod'] = 3
         modrm['rm'] = REGS16.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
+        if not _set_bits(assembler, base, modrm, 16):
+            return None
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg in REGS32:
         modrm['mod'] = 3
         modrm['rm'] = REGS32.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
+        if not _set_bits(assembler, base, modrm, 32):
+            return None
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg in REGS64:
         modrm['mod'] = 3
         modrm['rm'] = REGS64.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
+        if not _set_bits(assembler, base, modrm, 64):
+            return None
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg == '[':
@@ -140,26 +162,22 @@ def _Gvqp(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in REGS16:
         modrm['reg'] = REGS16.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
+        if not _set_bits(assembler, base, modrm, 16):
+            return None
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
     if reg in REGS32:
         modrm['reg'] = REGS32.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
+        if not _set_bits(assembler, base, modrm, 32):
+            return None
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
     if reg in REGS64:
         modrm['reg'] = REGS64.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
+        if not _set_bits(assembler, base, modrm, 64):
+            return None
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
@@ -167,22 +185,12 @@ def _Gvqp(instr, base, assembler, index, modrm):
 
 def _Zvqp(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
-    if reg in REGS32:
-        base = _apply_Z(base, reg, REGS32)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 32
-        return 1, base, b''
-    if reg in REGS64:
-        base = _apply_Z(base, reg, REGS64)
-        modrm['bits'] = 64
-        return 1, base, b''
-    if reg in REGS16:
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 16
-        base = _apply_Z(base, reg, REGS16)
-        return 1, base, b''
+    for bits, regs in ((16, REGS16), (32, REGS32), (64, REGS64)):
+        if reg in regs:
+            base = _apply_Z(base, reg, regs)
+            if not _set_bits(assembler, base, modrm, bits):
+                return None
+            return 1, base, b''
 
 
 def _Rvqp(instr, base, assembler, index, modrm):
@@ -217,19 +225,11 @@ def _Ivds(instr, base, assembler, index, modrm):
 
 
 def _rAX(instr, base, assembler, index, modrm):
-    if instr.tokens[index].upper() == 'AX':
-        modrm['bits'] = 16
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        return 1, base, b''
-    if instr.tokens[index].upper() == 'EAX':
-        modrm['bits'] = 32
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        return 1, base, b''
-    if instr.tokens[index].upper() == 'RAX':
-        modrm['bits'] = 64
-        return 1, base, b''
+    for bits, reg in ((16, 'AX'), (32, 'EAX'), (64, 'RAX')):
+        if instr.tokens[index].upper() == reg:
+            if not _set_bits(assembler, base, modrm, bits):
+                return None
+            return 1, base, b''
 
 
 def _Zv(instr, base, assembler, index, modrm):
@@ -238,10 +238,9 @@ def _Zv(instr, base, assembler, index, modrm):
 
 def _Zvq(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
-    if reg in REGS64:
+    # 64 bit is the default size, there is no need for REX.W
+    if reg in REGS64 and assembler.bits == 64:
         base = _apply_Z(base, reg, REGS64)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
         modrm['bits'] = 64
         return 1, base, b''
     if reg in REGS16:
-- 
2.43.0


From 8db023d12b4c33bf0c6c1f668ffc45b4415b4184 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 80/97] fix: [C24] x86 opcode extensions go in the modrm byte

---
 necroassembler/cpu/x86.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 5be0754..3dfb039 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -477,7 +477,6 @@ def _Mptp(instr, base, assembler, index, modrm):
 def _Ms(instr, base, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in ALL_REGS:
-            modrm['reg'] = 0
             modrm['mod'] = 0
             modrm['rm'] = 6
             if assembler.bits == 16:
@@ -1921,6 +1920,35 @@ OPCODES_TABLE = (
     (0xffe, 'PADDD', _Vdq, _Wdq)
 )
 
+# opcodes having a part of them in the reg field of the modrm byte
+OPCODES_EXTENSIONS = {
+    (0x81, 'ADD'): 0,
+    (0x81, 'OR'): 1,
+    (0x81, 'ADC'): 2,
+    (0x81, 'SBB'): 3,
+    (0x81, 'AND'): 4,
+    (0x81, 'SUB'): 5,
+    (0x81, 'XOR'): 6,
+    (0x81, 'CMP'): 7,
+    (0xc7, 'MOV'): 0,
+    (0xf7, 'TEST'): 0,
+    (0xf7, 'NOT'): 2,
+    (0xf7, 'NEG'): 3,
+    (0xf7, 'MUL'): 4,
+    (0xf7, 'IMUL'): 5,
+    (0xf7, 'DIV'): 6,
+    (0xf7, 'IDIV'): 7,
+    (0xff, 'INC'): 0,
+    (0xff, 'DEC'): 1,
+    (0xf01, 'SGDT'): 0,
+    (0xf01, 'SIDT'): 1,
+    (0xf01, 'LGDT'): 2,
+    (0xf01, 'LIDT'): 3,
+    (0xf01, 'INVLPG'): 7,
+    (0xfae, 'XSAVE'): 4,
+    (0xfae, 'XRSTOR'): 5,
+}
+
 OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
 
 
@@ -1937,6 +1965,9 @@ class X86OpCode:
     def __call__(self, instr):
         for base, args in self.conditions:
             modrm = {}
+            extension = OPCODES_EXTENSIONS.get((base, self.name))
+            if extension is not None:
+                modrm['reg'] = extension
             if not args:
                 if instr.tokens[0].upper().startswith('REP'):
                     new_instr = Instruction(
-- 
2.43.0


From 0be4b0f737f7d99fbfe5a9a80f1f6edf3550805b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 81/97] fix: [C24] x86 labels after a modrm byte are linked in
 their field

---
 necroassembler/cpu/x86.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 3dfb039..acb0ecc 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -26,22 +26,24 @@ def _build_modrm(assembler, base, modrm):
                 modrm['displacement'].lstrip('+'),
                 size=2,
                 bits_size=16,
-                offset=len(base),
+                offset=len(base) + len(blob),
                 signed=True))
         if modrm['bits'] == 32:
             blob += pack_le32s(assembler.parse_integer_or_label(
                 modrm['displacement'].lstrip('+'),
                 size=4,
                 bits_size=32,
-                offset=len(base),
+                offset=len(base) + len(blob),
                 signed=True))
         if modrm['bits'] == 64:
             blob += pack_le64s(assembler.parse_integer_or_label(
                 modrm['displacement'].lstrip('+'),
                 size=8,
                 bits_size=64,
-                offset=len(base),
+                offset=len(base) + len(blob),
                 signed=True))
+    # the bytes between the opcode and an immediate value
+    modrm['size'] = len(blob)
     return blob
 
 
@@ -218,10 +220,10 @@ def _Ivds(instr, base, assembler, index, modrm):
         if 'bits' in modrm:
             if modrm['bits'] == 16:
                 return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index], size=2, bits_size=16, offset=len(base) + modrm.get('size', 0)))
             if modrm['bits'] == 32:
                 return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index], size=4, bits_size=32, offset=len(base) + modrm.get('size', 0)))
 
 
 def _rAX(instr, base, assembler, index, modrm):
@@ -346,13 +348,13 @@ def _Ivqp(instr, base, assembler, index, modrm):
         if 'bits' in modrm:
             if modrm['bits'] == 16:
                 return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index], size=2, bits_size=16, offset=len(base) + modrm.get('size', 0)))
             if modrm['bits'] == 32:
                 return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index], size=4, bits_size=32, offset=len(base) + modrm.get('size', 0)))
             if modrm['bits'] == 64:
                 return 1, base, pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=8, bits_size=64, offset=len(base)))
+                    instr.tokens[index], size=8, bits_size=64, offset=len(base) + modrm.get('size', 0)))
 
 
 def _Iw(instr, base, assembler, index, modrm):
@@ -481,13 +483,13 @@ def _Ms(instr, base, assembler, index, modrm):
             modrm['rm'] = 6
             if assembler.bits == 16:
                 return 3, base, _build_modrm(assembler, base, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base) + 1))
             elif assembler.bits == 32:
                 return 3, base, _build_modrm(assembler, base, modrm) + pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base) + 1))
             elif assembler.bits == 64:
                 return 3, base, _build_modrm(assembler, base, modrm) + pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base)))
+                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base) + 1))
 
 
 def _Rv(instr, base, assembler, index, modrm):
-- 
2.43.0


From 9d5a92eb7ade472778527c9ad41b7b3d96833c7a Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 82/97] fix: [C24] x86 instructions without operands have their
 whole opcode

---
 necroassembler/cpu/x86.py | 68 +++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index acb0ecc..f0a5021 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1951,7 +1951,51 @@ OPCODES_EXTENSIONS = {
     (0xfae, 'XRSTOR'): 5,
 }
 
-OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
+# the last byte of the opcode of the instructions without operands
+OPCODES_SECONDARY = {
+    'AAD': 0x0a, 'AAM': 0x0a,
+    'F2XM1': 0xf0, 'FABS': 0xe1, 'FADDP': 0xc1, 'FCHS': 0xe0, 'FCLEX': 0xe2,
+    'FCOM': 0xd1, 'FCOM2': 0xd1, 'FCOMP': 0xd9, 'FCOMP3': 0xd9,
+    'FCOMP5': 0xd1, 'FCOMPP': 0xd9, 'FCOS': 0xff, 'FDECSTP': 0xf6,
+    'FDISI': 0xe1, 'FDIVP': 0xf9, 'FDIVRP': 0xf1, 'FENI': 0xe0,
+    'FINCSTP': 0xf7, 'FINIT': 0xe3, 'FLD1': 0xe8, 'FLDL2E': 0xea,
+    'FLDL2T': 0xe9, 'FLDLG2': 0xec, 'FLDLN2': 0xed, 'FLDPI': 0xeb,
+    'FLDZ': 0xee, 'FMULP': 0xc9, 'FNCLEX': 0xe2, 'FNDISI': 0xe1,
+    'FNENI': 0xe0, 'FNINIT': 0xe3, 'FNOP': 0xd0, 'FNSETPM': 0xe4,
+    'FPATAN': 0xf3, 'FPREM': 0xf8, 'FPREM1': 0xf5, 'FPTAN': 0xf2,
+    'FRNDINT': 0xfc, 'FSCALE': 0xfd, 'FSETPM': 0xe4, 'FSIN': 0xfe,
+    'FSINCOS': 0xfb, 'FSQRT': 0xfa, 'FSUBP': 0xe9, 'FSUBRP': 0xe1,
+    'FTST': 0xe4, 'FUCOM': 0xe1, 'FUCOMP': 0xe9, 'FUCOMPP': 0xe9,
+    'FXAM': 0xe5, 'FXCH': 0xc9, 'FXCH4': 0xc9, 'FXCH7': 0xc9,
+    'FXTRACT': 0xf4, 'FYL2X': 0xf1, 'FYL2XP1': 0xf9,
+    'LFENCE': 0xe8, 'MFENCE': 0xf0, 'SFENCE': 0xf8,
+    'MONITOR': 0xc8, 'MWAIT': 0xc9, 'RDTSCP': 0xf9, 'SWAPGS': 0xf8,
+    'VMCALL': 0xc1, 'VMLAUNCH': 0xc2, 'VMRESUME': 0xc3, 'VMXOFF': 0xc4,
+    'XGETBV': 0xd0, 'XSETBV': 0xd1,
+}
+
+# mandatory prefixes
+OPCODES_PREFIX = {
+    # the fpu instructions checking for exceptions begin with a FWAIT
+    'FCLEX': 0x9b, 'FDISI': 0x9b, 'FENI': 0x9b, 'FINIT': 0x9b,
+    'FSETPM': 0x9b,
+    'PAUSE': 0xf3, 'POPCNT': 0xf3,
+}
+
+# operand size of the instructions without operands
+OPCODES_IMPLICIT_SIZE = {
+    'CBW': 16, 'CWDE': 32, 'CDQE': 64,
+    'CWD': 16, 'CDQ': 32, 'CQO': 64,
+    'CMPSW': 16, 'CMPSD': 32, 'CMPSQ': 64,
+    'INSW': 16, 'INSD': 32,
+    'LODSW': 16, 'LODSD': 32, 'LODSQ': 64,
+    'MOVSW': 16, 'MOVSD': 32, 'MOVSQ': 64,
+    'OUTSW': 16, 'OUTSD': 32,
+    'SCASW': 16, 'SCASD': 32, 'SCASQ': 64,
+    'STOSW': 16, 'STOSD': 32, 'STOSQ': 64,
+    'POPAD': 32, 'PUSHAD': 32, 'POPFD': 32, 'PUSHFD': 32,
+    'IRETD': 32, 'IRETQ': 64,
+}
 
 
 class X86OpCode:
@@ -1964,6 +2008,12 @@ class X86OpCode:
     def add_condition(self, base, args):
         self.conditions.append((base, args))
 
+    def _base(self, base):
+        blob = [base >> 8, base & 0xff] if base > 0xff else [base]
+        if self.name in OPCODES_PREFIX:
+            blob.insert(0, OPCODES_PREFIX[self.name])
+        return blob
+
     def __call__(self, instr):
         for base, args in self.conditions:
             modrm = {}
@@ -1977,19 +2027,19 @@ class X86OpCode:
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
                 if len(instr.tokens) > 1:
                     continue
-                if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
-                    if self.assembler.bits == 16:
-                        return pack_byte(0x66, base)
-                return pack_byte(base)
+                blob = self._base(base)
+                if self.name in OPCODES_SECONDARY:
+                    blob.append(OPCODES_SECONDARY[self.name])
+                if not _set_bits(self.assembler, blob, modrm,
+                                 OPCODES_IMPLICIT_SIZE.get(self.name, self.assembler.bits if self.assembler.bits == 16 else 32)):
+                    continue
+                return pack_byte(*blob)
             if len(instr.tokens) < 2:
                 continue
             index = 1
             skip = False
             full_blob = b''
-            if base > 0xFF:
-                new_base = [base >> 8, base & 0xff]
-            else:
-                new_base = [base]
+            new_base = self._base(base)
             for arg in args:
                 # missing operand
                 if index >= len(instr.tokens):
-- 
2.43.0


From 1750ae818b40160971128e7e0d0d0b036fa2570b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 83/97] fix: [C06] x86 32 bit jumps can reach any 32 bit
 distance and go backwards

---
 necroassembler/cpu/x86.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index f0a5021..c70fb66 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -456,16 +456,16 @@ def _eAX(instr, base, assembler, index, modrm):
 def _Jvds(instr, base, assembler, index, modrm):
     if instr.tokens[index].upper() not in ALL_REGS + ('[', ']'):
         if assembler.bits == 16:
-            return 1, base, pack_le16u(assembler.parse_integer_or_label(
+            return 1, base, pack_le16s(assembler.parse_integer_or_label(
                 instr.tokens[index],
                 relative=assembler.pc + len(base) + 2,
                 size=2, bits_size=16, offset=len(base)))
 
         if assembler.bits in (32, 64):
-            return 1, base, pack_le32u(assembler.parse_integer_or_label(
+            return 1, base, pack_le32s(assembler.parse_integer_or_label(
                 instr.tokens[index],
                 relative=assembler.pc + len(base) + 4,
-                size=2, bits_size=16, offset=len(base)))
+                size=4, bits_size=32, offset=len(base)))
 
 
 def _Eq(instr, base, assembler, index, modrm):
-- 
2.43.0


From 6233860cdf2d7b06cf5360a8fc09ce416e52f0a8 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 84/97] fix: [C24] x86 memory operands use the addressing of
 the mode

---
 necroassembler/cpu/x86.py | 143 +++++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 63 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index c70fb66..ec98f01 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, directive
 from necroassembler.exceptions import InvalidOpCodeArguments, InvalidArgumentsForDirective
 from necroassembler.utils import (pack_byte, pack_le16u, pack_le32u,
-                                  pack_le64u, pack_bits, pack_le16s, pack_le32s, pack_le64s, match)
+                                  pack_le64u, pack_bits, pack_le16s, pack_le32s, match)
 from necroassembler.statements import Instruction
 
 REGS8 = ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH')
@@ -11,6 +11,10 @@ REGS64 = ('RAX', 'RCX', 'RDX', 'RBX', 'RSP', 'RBP', 'RSI', 'RDI')
 CREGS = ('CR0', 'CR1', 'CR2', 'CR3', 'CR4', 'CR5', 'CR6', 'CR7')
 SEGMENTS = ('ES', 'CS', 'SS', 'DS')
 
+# registers of the 16 bit memory operands
+MODRM16 = (('BX', 'SI'), ('BX', 'DI'), ('BP', 'SI'), ('BP', 'DI'),
+           ('SI',), ('DI',), ('BP',), ('BX',))
+
 ALL_REGS = REGS8 + REGS16 + REGS32 + REGS64 + CREGS + SEGMENTS
 
 
@@ -20,68 +24,81 @@ def _build_modrm(assembler, base, modrm):
                                ((5, 3), modrm['reg']),
                                ((2, 0), modrm['rm'])))
 
+    if modrm.get('sib') is not None:
+        blob += pack_byte(modrm['sib'])
+
     if modrm.get('displacement') is not None:
-        if modrm['bits'] == 16:
-            blob += pack_le16s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=2,
-                bits_size=16,
-                offset=len(base) + len(blob),
-                signed=True))
-        if modrm['bits'] == 32:
-            blob += pack_le32s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=4,
-                bits_size=32,
-                offset=len(base) + len(blob),
-                signed=True))
-        if modrm['bits'] == 64:
-            blob += pack_le64s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=8,
-                bits_size=64,
-                offset=len(base) + len(blob),
-                signed=True))
+        size = modrm['displacement_bits'] // 8
+        displacement = assembler.parse_integer_or_label(
+            modrm['displacement'].lstrip('+'),
+            size=size,
+            bits_size=size * 8,
+            offset=len(base) + len(blob),
+            signed=True)
+        blob += pack_le16s(displacement) if size == 2 else pack_le32s(displacement)
+
     # the bytes between the opcode and an immediate value
     modrm['size'] = len(blob)
     return blob
 
 
-def _get_modrm_mod(arg):
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b000, 3, None
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b001, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b010, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b011, 3, None
-    if match(arg, ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b100, 1, None
-    if match(arg, ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b101, 1, None
-    if match(arg, ('BP', 'EBP', 'RBP')):
-        return 0b00, 0b110, 1, None
-    if match(arg, ('BX', 'EBX', 'RBX')):
-        return 0b00, 0b111, 1, None
-    # displacement (16 bit only)
-    if match(arg, 'BX', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b000, 5, arg[3] + arg[4]
-    if match(arg, 'BX', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b001, 5, arg[3] + arg[4]
-    if match(arg, 'BP', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b010, 5, arg[3] + arg[4]
-    if match(arg, 'BP', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b011, 5, arg[3] + arg[4]
-    if match(arg, 'SI', ('+', '-'), None):
-        return 0b10, 0b100, 3, arg[1] + arg[2]
-    if match(arg, 'DI', ('+', '-'), None):
-        return 0b10, 0b101, 3, arg[1] + arg[2]
-    if match(arg, 'BP', ('+', '-'), None):
-        return 0b10, 0b110, 3, arg[1] + arg[2]
-    if match(arg, 'BX', ('+', '-'), None):
-        return 0b10, 0b111, 3, arg[1] + arg[2]
-    raise InvalidOpCodeArguments()
+def _split_memory(tokens):
+    # register [+ register] [+|- displacement]
+    registers = [tokens[0].upper()] if tokens else []
+    displacement = None
+    index = 1
+    while index < len(tokens):
+        if displacement is not None or tokens[index] not in ('+', '-') or index + 1 >= len(tokens):
+            raise InvalidOpCodeArguments()
+        if tokens[index] == '+' and tokens[index + 1].upper() in ALL_REGS:
+            registers.append(tokens[index + 1].upper())
+        else:
+            displacement = tokens[index] + tokens[index + 1]
+        index += 2
+    return tuple(registers), displacement
+
+
+def _apply_memory(assembler, base, modrm, tokens):
+    registers, displacement = _split_memory(tokens)
+    sib = None
+    if registers in MODRM16:
+        size = 16
+        rm = MODRM16.index(registers)
+        need_displacement = registers == ('BP',)
+    else:
+        if len(registers) not in (1, 2):
+            raise InvalidOpCodeArguments()
+        for size, regs in ((32, REGS32), (64, REGS64)):
+            if all([x in regs for x in registers]):
+                rm, *index = [regs.index(x) for x in registers]
+                break
+        else:
+            raise InvalidOpCodeArguments()
+        need_displacement = rm == 5
+        if index or rm == 4:
+            # 4 means no index
+            index = index[0] if index else 4
+            if index == 4 and len(registers) > 1:
+                # the stack pointer can be used only as the base
+                rm, index = index, rm
+                need_displacement = False
+                if index == 4:
+                    raise InvalidOpCodeArguments()
+            sib = pack_bits(0, ((5, 3), index), ((2, 0), rm))
+            rm = 4
+
+    if size != assembler.bits:
+        if size == 64 or (size == 16 and assembler.bits == 64):
+            raise InvalidOpCodeArguments()
+        base.insert(0, 0x67)
+
+    if displacement is None and need_displacement:
+        displacement = '+0'
+    modrm['mod'] = 0b00 if displacement is None else 0b10
+    modrm['rm'] = rm
+    modrm['sib'] = sib
+    modrm['displacement'] = displacement
+    modrm['displacement_bits'] = 16 if size == 16 else 32
 
 
 # prefixes that could already be in the base (opcode) of an instruction
@@ -153,9 +170,9 @@ def _Evqp(instr, base, assembler, index, modrm):
         except ValueError:
             raise InvalidOpCodeArguments(instr)
         try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+            _apply_memory(assembler, base, modrm,
+                          instr.tokens[index+1:end_index])
+            return end_index - index + 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
         except InvalidOpCodeArguments:
             return None
 
@@ -316,9 +333,9 @@ def _M(instr, base, assembler, index, modrm):
         except ValueError:
             raise InvalidOpCodeArguments(instr)
         try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base,  b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+            _apply_memory(assembler, base, modrm,
+                          instr.tokens[index+1:end_index])
+            return end_index - index + 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
         except InvalidOpCodeArguments:
             return None
 
-- 
2.43.0


From 5aad5818c91aad2d2a758b150b7ab747362f3a24 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 85/97] fix: [C24] x86 descriptor tables are addressed with the
 encoding of the mode

---
 necroassembler/cpu/x86.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index ec98f01..487d413 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -497,16 +497,23 @@ def _Ms(instr, base, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in ALL_REGS:
             modrm['mod'] = 0
-            modrm['rm'] = 6
+            size = 4
             if assembler.bits == 16:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base) + 1))
+                modrm['rm'] = 6
+                size = 2
             elif assembler.bits == 32:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base) + 1))
-            elif assembler.bits == 64:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base) + 1))
+                modrm['rm'] = 5
+            else:
+                # without the sib byte the address is relative to rip
+                modrm['rm'] = 4
+                modrm['sib'] = 0x25
+            blob = _build_modrm(assembler, base, modrm)
+            address = assembler.parse_integer_or_label(
+                instr.tokens[index+1], size=size, bits_size=size * 8, offset=len(base) + len(blob))
+            if assembler.bits == 64 and address > 0x7fffffff:
+                # sign extended
+                raise InvalidOpCodeArguments()
+            return 3, base, blob + (pack_le16u(address) if size == 2 else pack_le32u(address))
 
 
 def _Rv(instr, base, assembler, index, modrm):
-- 
2.43.0


From 8f67a48497eef37e1eefd215c43e048b5666285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 86/97] fix: [C17] .log rejects an argument that is neither on
 nor off

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 4007b88..336d688 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -609,7 +609,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 70fe07fc8fbace1f3cb09aecab6ec56057b2500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 87/97] fix: [C11] .ram, .align and .repeat reject a negative
 argument

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 336d688..dd3ba9e 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -662,7 +662,7 @@ class Assembler:
     def directive_ram(self, instr):
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
         self.org_counter += size
@@ -670,8 +670,8 @@ class Assembler:
     def directive_align(self, instr):
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
-        if size is None:
+        size = self.parse_integer(instr.tokens[1], 64, True)
+        if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
 
         mod = (self.current_org + self.org_counter) % size
@@ -684,7 +684,7 @@ class Assembler:
             raise UnsupportedNestedRepeat(instr)
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-- 
2.43.0


From 450594d1f12bd3bc161d37081974aa3ef71f3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 88/97] fix: [C11] a missing file or JSON key is reported with
 its line like any other bad argument

---
 necroassembler/statements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 2d44f97..be0d412 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -147,7 +147,7 @@ class Directive(Statement):
                 exc.args = (exc.args[0] + ' ' + str(self),)
                 exc.located = True
             raise exc from None
-        except (ValueError, IndexError, ArithmeticError):
-            # wrong arguments detected by python, report the whole
-            # exceptions chain
+        except Exception:
+            # wrong arguments detected by python (or by the system, as a
+            # missing file), report the whole exceptions chain
             raise InvalidArgumentsForDirective(self)
-- 
2.43.0


From 3c2f74858cd45e9e1a2f4650927941de9d47541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 89/97] fix: [C13] a repeat block assembles its statements
 again instead of copying bytes that depend on their position

---
 necroassembler/assembler.py  | 36 +++++++++++++++++++++---------------
 necroassembler/statements.py |  3 +++
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index dd3ba9e..99a1dc4 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,4 +1,3 @@
-from copy import copy
 from string import hexdigits
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
@@ -13,6 +12,7 @@ from necroassembler.exceptions import (UnknownLabel, UnsupportedNestedMacro, Not
                                        DivisionByZero)
 from necroassembler.macros import Macro
 from necroassembler.linker import Dummy
+from necroassembler.statements import Label
 
 
 def opcode(*name):
@@ -210,7 +210,7 @@ class Assembler:
 
         for statement in tokenizer.statements:
             current_index = len(self.assembled_bytes)
-            statement.assemble(self)
+            self._assemble_statement(statement)
             if self.log:
                 new_index = len(self.assembled_bytes)
                 if new_index == current_index:
@@ -219,6 +219,19 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+    def _assemble_statement(self, statement):
+        if self.repeat is None:
+            statement.assemble(self)
+            return
+        # the body of a repeat block is assembled again by its end
+        _, statements = self.repeat
+        recorded = len(statements)
+        again = statement.clone()
+        statement.assemble(self)
+        # the statements of an included file are recorded one by one
+        if len(statements) == recorded:
+            statements.append(again)
+
     def assemble_file(self, filename):
         with open(filename) as f:
             self.assemble(f.read(), filename)
@@ -688,26 +701,19 @@ class Assembler:
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-        self.repeat = (size, len(self.assembled_bytes))
+        self.repeat = (size, [])
 
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
 
-        size, index = self.repeat
+        size, statements = self.repeat
         self.repeat = None
-        blob = self.assembled_bytes[index:]
-        labels = [(address, data) for address, data in self.labels_addresses.items()
-                  if address >= index]
         for i in range(0, size-1):
-            self.append_assembled_bytes(blob)
-            # the copies need the label translations too
-            for address, data in labels:
-                data = copy(data)
-                shift = len(blob) * (i + 1)
-                if data.relative != 0:
-                    data.relative += shift
-                self.labels_addresses[address + shift] = data
+            for statement in statements:
+                # labels are defined by the first copy
+                if not isinstance(statement, Label):
+                    statement.clone().assemble(self)
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index be0d412..18af869 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -10,6 +10,9 @@ class Statement:
         self.line = line
         self.context = context
 
+    def clone(self):
+        return self.__class__(self.tokens.copy(), self.line, self.context)
+
     def __str__(self):
         if self.context is not None:
             return 'at line {1} of {0}: {2}'.format(self.context, self.line, str(self.tokens))
-- 
2.43.0


From 0a256528e9dc2e63b633d1261eb73678e812a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 90/97] fix: [C22] LD r,op (IX+d) forms of the Z80 table can be
 written

---
 necroassembler/cpu/z80.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 1b753e7..62d7cb9 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1240,7 +1240,8 @@ class Z80OpCode:
     def add_variant(self, code, args):
         sanitized_args = []
         hooks = []
-        for index, arg in enumerate(args):
+        # an argument of the table can be made of more than a token (like 'RES 0')
+        for index, arg in enumerate(' '.join(args).split()):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
                 hooks.append((self._build_nn, index))
-- 
2.43.0


From 0893857edbf255f03b71e18d3210887ae33b7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 91/97] fix: [C22] IN F,(C) and IN (C) of the Z80 can be
 written

---
 necroassembler/cpu/z80.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 62d7cb9..37918a2 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -827,7 +827,8 @@ OPCODES_TABLE = (
     ([0xED6D], 'RETN'),
     ([0xED6E], 'IM', '0/1'),
     ([0xED6F], 'RLD'),
-    ([0xED70], 'IN', 'F', '(', 'C', ')', '* / IN ', '(', 'C', ')'),
+    ([0xED70], 'IN', 'F', '(', 'C', ')'),
+    ([0xED70], 'IN', '(', 'C', ')'),
     ([0xED71], 'OUT', '(', 'C', ')', '0'),
     ([0xED72], 'SBC', 'HL', 'SP'),
     ([0xED73], 'LD', '(', 'nn', ')', 'SP'),
-- 
2.43.0


From 5e21fcc520d0a90a47d4ea3a87089fea5b4171bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 92/97] fix: [C08] a macro can be called again while it is
 expanded

---
 necroassembler/macros.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index fb992f7..5d42c2b 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -25,7 +25,8 @@ class Macro:
         _, *args = tokens
         macro_args = self.args
         for instr in self.instructions:
-            original_tokens = instr.tokens.copy()
+            # work on a copy: the macro could be called again by its own body
+            instr = instr.clone()
             # check for known macro args:
             # first build a dictionary of arg: value
             macro_dict = {}
@@ -34,7 +35,4 @@ class Macro:
                 
             substitute_with_dict(instr.tokens, macro_dict, 0)
 
-            try:
-                instr.assemble(assembler)
-            finally:
-                instr.tokens = original_tokens
+            instr.assemble(assembler)
-- 
2.43.0


From 6e7305870a16605320cc33be55ad5ef80e113ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 93/97] fix: [C06] an expression in a relative reference is
 applied to the target

---
 necroassembler/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 99a1dc4..d38900c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -499,7 +499,10 @@ class Assembler:
         name, pre_formula, post_formula = self._get_math_formula(name)
         if not name in self.labels:
             return None
-        return self.apply_math_formula(pre_formula, post_formula, self.get_label_relative_address(self.labels[name], start))
+        # the formula is about the target, not about its distance
+        address = self.get_label_absolute_address(self.labels[name])
+        distance = self.get_label_relative_address(self.labels[name], start)
+        return self.apply_math_formula(pre_formula, post_formula, address) - address + distance
 
     def change_org(self, start, end=0):
 
-- 
2.43.0


From fd9f909ff1104003ac270b9bb9682ab9d4fb6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:43 +0000
Subject: [PATCH 94/97] fix: [C04] a label expression can use a label that is
 defined later

---
 necroassembler/cpu/mos6502.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 443ca53..4b32ff7 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack, pack_byte, known_args
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AssemblerException, UnknownLabel
 
 
 class InvalidMode(AssemblerException):
@@ -106,7 +106,11 @@ class AssemblerMOS6502(Assembler):
         # label management
 
         # check for already defined label (zero page optimization)
-        address = self.get_label_absolute_address_by_name(arg)
+        try:
+            address = self.get_label_absolute_address_by_name(arg)
+        except UnknownLabel:
+            # another label of the expression is defined later
+            address = None
         if address is None:
             if absolute is None:
                 raise AbsoluteAddressNotAllowed()
-- 
2.43.0


From 4e603294205296dc1666877227b39c375b10e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 95/97] fix: [C11] a directive with too many arguments is
 rejected

---
 necroassembler/assembler.py         | 6 ++++++
 necroassembler/cpu/x86.py           | 2 ++
 necroassembler/platforms/gameboy.py | 2 ++
 necroassembler/platforms/nes.py     | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index d38900c..a2589cd 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -185,6 +185,8 @@ class Assembler:
     def macro_end(self, instr):
         if self.macro_recording is None:
             raise NotInMacroRecordingMode(instr)
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
         self.macro_recording = None
 
     def assemble(self, code, context=None):
@@ -619,6 +621,8 @@ class Assembler:
         self.append_assembled_bytes(b'\x00')
 
     def directive_log(self, instr):
+        if len(instr.tokens) > 2:
+            raise InvalidArgumentsForDirective(instr)
         if len(instr.tokens) > 1:
             if instr.tokens[1].upper() == 'ON':
                 self.log = True
@@ -709,6 +713,8 @@ class Assembler:
     def directive_end_repeat(self, instr):
         if self.repeat is None:
             raise NotInRepeatMode(instr)
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
 
         size, statements = self.repeat
         self.repeat = None
diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 487d413..0410a70 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -2101,6 +2101,8 @@ class AssemblerX86(Assembler):
 
     @directive('bits')
     def directive_bits(self, instr):
+        if len(instr.tokens) != 2:
+            raise InvalidArgumentsForDirective(instr)
         value = self.parse_integer(instr.tokens[1], 8, False)
         if value is None or value not in (16, 32, 64):
             raise InvalidArgumentsForDirective
diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 7519018..e78f074 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -47,6 +47,8 @@ class AssemblerGameboy(AssemblerLR35902):
 
     @directive('cartridge')
     def _generate_cartridge_header(self, instr):
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
         if len(self.assembled_bytes) != 256:
             raise InvalidCartidgeHeaderOffset(instr)
 
diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index d5f3405..2029878 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -41,6 +41,8 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge')
     def _generate_cartridge_header(self, instr):
+        if len(instr.tokens) != 1:
+            raise InvalidArgumentsForDirective(instr)
         if len(self.assembled_bytes) != 0:
             raise InvalidCartidgeHeaderOffset(instr)
 
-- 
2.43.0


From 8290387f4051a07032c6b8fff45a28339db311cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 96/97] fix: [C16] the tools of the platforms take any number
 of sources

---
 necroassembler/platforms/gba.py     |  6 ++++--
 necroassembler/platforms/genesis.py |  6 ++++--
 necroassembler/platforms/nes.py     | 10 ++++++----
 necroassembler/platforms/psx.py     |  6 ++++--
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/necroassembler/platforms/gba.py b/necroassembler/platforms/gba.py
index db0028a..f1c9501 100644
--- a/necroassembler/platforms/gba.py
+++ b/necroassembler/platforms/gba.py
@@ -3,8 +3,10 @@ from necroassembler.cpu.thumb import AssemblerThumb
 
 def main():
     import sys
+    source, *sources, destination = sys.argv[1:]
     asm = AssemblerThumb()
-    asm.assemble_file(sys.argv[1])
+    for filename in (source, *sources):
+        asm.assemble_file(filename)
     asm.link()
 
     # fix checksums
@@ -15,7 +17,7 @@ def main():
         header_checksum = header_checksum - int(asm.assembled_bytes[i])
     asm.assembled_bytes[0xBD] = (header_checksum - 0x19) & 0xFF
 
-    asm.save(sys.argv[2])
+    asm.save(destination)
 
 
 if __name__ == '__main__':
diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 37e833e..b1417d8 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -3,8 +3,10 @@ from necroassembler.cpu.mc68000 import AssemblerMC68000
 
 def main():
     import sys
+    source, *sources, destination = sys.argv[1:]
     asm = AssemblerMC68000()
-    asm.assemble_file(sys.argv[1])
+    for filename in (source, *sources):
+        asm.assemble_file(filename)
     asm.link()
 
     # fix checksums
@@ -20,7 +22,7 @@ def main():
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
 
-    asm.save(sys.argv[2])
+    asm.save(destination)
 
 
 if __name__ == '__main__':
diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 2029878..71bde94 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -120,13 +120,15 @@ class AssemblerNES(AssemblerMOS6502):
 
 def main():
     import sys
+    source, *sources, destination = sys.argv[1:]
     asm = AssemblerNES()
-    asm.assemble_file(sys.argv[1])
+    for filename in (source, *sources):
+        asm.assemble_file(filename)
     asm.link()
-    asm.save(sys.argv[2])
+    asm.save(destination)
 
     # rom debug symbols
-    with open(sys.argv[2] + '.0.nl', 'wb') as nl_file:
+    with open(destination + '.0.nl', 'wb') as nl_file:
         for label in asm.labels:
             address = asm.get_label_absolute_address_by_name(label)
             if 0x8000 <= address <= 0xFFFF:
@@ -134,7 +136,7 @@ def main():
                     address, label).encode('ascii'))
 
     # ram debug symbols
-    with open(sys.argv[2] + '.ram.nl', 'wb') as nl_file:
+    with open(destination + '.ram.nl', 'wb') as nl_file:
         for label in asm.labels:
             address = asm.get_label_absolute_address_by_name(label)
             if 0x0000 <= address <= 0x7FF:
diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index a911ee2..9cd9c50 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -9,15 +9,17 @@ class AssemberPSX(AssemblerMIPS32):
 
 def main():
     import sys
+    source, *sources, destination = sys.argv[1:]
     asm = AssemberPSX()
-    asm.assemble_file(sys.argv[1])
+    for filename in (source, *sources):
+        asm.assemble_file(filename)
     asm.link()
 
     padding = len(asm.assembled_bytes) % 2048
     if padding != 0:
         asm.assembled_bytes += bytes(2048 - padding)
 
-    with open(sys.argv[2], 'wb') as output:
+    with open(destination, 'wb') as output:
         output.write('PS-X EXE'.encode('ascii'))
         output.seek(0x10)
         output.write(b'\x00\x00\x01\x80')  # pc 0x80010000
-- 
2.43.0


From 187c2c186439f4c99e634386e802392560dba754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 97/97] fix: [C24] an address above 2 GB given by a label does
 not fit the sign extended field of the 64 bit mode

---
 necroassembler/cpu/x86.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 0410a70..8c1047c 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1,5 +1,5 @@
 from necroassembler import Assembler, directive
-from necroassembler.exceptions import InvalidOpCodeArguments, InvalidArgumentsForDirective
+from necroassembler.exceptions import InvalidOpCodeArguments, InvalidArgumentsForDirective, NotInBitRange
 from necroassembler.utils import (pack_byte, pack_le16u, pack_le32u,
                                   pack_le64u, pack_bits, pack_le16s, pack_le32s, match)
 from necroassembler.statements import Instruction
@@ -42,6 +42,13 @@ def _build_modrm(assembler, base, modrm):
     return blob
 
 
+# the 64 bit mode extends the sign of a 32 bit address
+def _sign_extended(address):
+    if address > 0x7fffffff:
+        raise NotInBitRange(address, 31)
+    return address
+
+
 def _split_memory(tokens):
     # register [+ register] [+|- displacement]
     registers = [tokens[0].upper()] if tokens else []
@@ -509,10 +516,10 @@ def _Ms(instr, base, assembler, index, modrm):
                 modrm['sib'] = 0x25
             blob = _build_modrm(assembler, base, modrm)
             address = assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=size, bits_size=size * 8, offset=len(base) + len(blob))
-            if assembler.bits == 64 and address > 0x7fffffff:
-                # sign extended
-                raise InvalidOpCodeArguments()
+                instr.tokens[index+1], size=size, bits_size=size * 8, offset=len(base) + len(blob),
+                filter=_sign_extended if assembler.bits == 64 else None)
+            if assembler.bits == 64:
+                _sign_extended(address)
             return 3, base, blob + (pack_le16u(address) if size == 2 else pack_le32u(address))
 
 
-- 
2.43.0

