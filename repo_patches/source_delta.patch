From 17891a457667367be8e959ae6394cfe544524251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 01/43] fix: ExHiROM translation must look at address bit 23,
 which was masked off before the test

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..7891440 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From 5320b4229eaad09a702c765dde65e36b94a5c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 02/43] fix: Rom::Read of more than a bank returned only the
 bytes between the end points

---
 nsasm/rom.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7891440..89d250d 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,8 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (*last_address >= *first_address &&
+      *last_address - *first_address == static_cast<size_t>(length) - 1) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From 88d7e835ed447ae0e5c96e60b0af50f05afaed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 03/43] fix: RomOverwriter read the image through the
 moved-from pointer

---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From 30e11de3a9f3dce5ee1ca2fbd0b6edefd39b9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 04/43] fix: RomOverwriter::Write accepted the offset one past
 the end of the image

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 89d250d..a520a4f 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -176,7 +176,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From c61a8f56ab76cdb85188510c848496c4de0038b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 05/43] fix: a 4 MB HiROM image was taken for ExHiROM

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index a520a4f..cae2710 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -140,7 +140,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   if (maybe_lorom) {
     return std::make_unique<Rom>(kLoRom, path, std::move(header),
                                  std::move(data));
-  } else if (file_size < 0x400000) {
+  } else if (file_size <= 0x400000) {
     return std::make_unique<Rom>(kHiRom, path, std::move(header),
                                  std::move(data));
   } else {
-- 
2.43.0


From 870df245e9a61cd880d6fe3447157a4fc9fb2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 06/43] fix: LoadRomFile left the file open when its header
 could not be read

---
 nsasm/rom.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index cae2710..4389ece 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -118,6 +118,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
-- 
2.43.0


From 2038b79ed708e89e31357507150cd7c25f6d1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 07/43] fix: LoadRomFile indexed an empty vector when a file is
 nothing but a header

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4389ece..b0a748b 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -125,7 +125,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   }
   std::vector<uint8_t> data;
   data.resize(file_size);
-  int bytes_read = fread(&data[0], 1, file_size, f);
+  int bytes_read = fread(data.data(), 1, file_size, f);
   fclose(f);
   if (bytes_read != file_size || file_size < 0x10000) {
     return Error("Failed to read file e").SetLocation(path);
-- 
2.43.0


From 1a3c31ad851867b540c52f9189f2a27b09d8c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 08/43] fix: RomOverwriter::CreateFile left the file open when
 a write failed

---
 nsasm/rom.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index b0a748b..d15155f 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -195,11 +195,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From fd776265a0030a7f27cc90fcd7656771d9803bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 09/43] fix: quick_dump asked the successfully loaded ROM for
 the read's error and crashed

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From d6f4bd29229b3c47bb2b00ede9ff36d9b0d4b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 10/43] fix: the .REMOTE directive had no printed name

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From 47dc0f7d88856aa134f7383106f8a3cf83bc383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 11/43] fix: claiming an empty chunk stored an empty range and
 could report a conflict

---
 nsasm/ranges.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/ranges.cc b/nsasm/ranges.cc
index ee72b41..f063e29 100644
--- a/nsasm/ranges.cc
+++ b/nsasm/ranges.cc
@@ -41,6 +41,10 @@ bool DataRange::Contains(nsasm::Address location) const {
 }
 
 bool DataRange::ClaimBytes(Chunk new_chunk) {
+  // An empty chunk claims no bytes, and so conflicts with nothing.
+  if (new_chunk.first >= new_chunk.second) {
+    return true;
+  }
   if (ranges_.empty()) {
     ranges_.push_back(new_chunk);
     return true;
-- 
2.43.0


From 8be92e89a8256f6864a1fe75aa51c42716abfe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 12/43] fix: quick_dump took an empty argument for a number and
 used uninitialised values

---
 util/quick_dump.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..f5050ad 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From d27ba186a8ace90515d73446d2a4734fcc81c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 13/43] fix: quick_dump asserted on a start address beyond 24
 bits

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index f5050ad..9d35ee8 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,7 +28,7 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (sscanf(argv[2], "%x", &start) != 1) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffff) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From a9a6bf3fc8e2bf6517c65947a678394335856b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 14/43] fix: report branches to values that are no address
 instead of asserting

---
 nsasm/instruction.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..ed600aa 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -481,6 +481,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Branch target is not a valid address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(2);
     auto offset = target.SubtractWrapped(branch_base);
@@ -495,6 +498,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Branch target is not a valid address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(3);
     auto offset = target.SubtractWrapped(branch_base);
@@ -512,7 +518,7 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
-- 
2.43.0


From 2b5d7f4d1db74a09e573e0a6dca27949fe28d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 15/43] fix: pulling a register of unknown size that was pushed
 no longer asserts

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..108e0f0 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -291,7 +291,7 @@ struct StackValue {
 
   Type type() const { return type_; }
   uint8_t value() const {
-    assert(type_ == T_byte);
+    assert(type_ == T_byte || IsVarSize());
     return value_;
   }
   StatusFlags flags() const {
-- 
2.43.0


From 80aeafbd205ebe47dc6599e911c2f6ddcdea25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 16/43] fix: pulling a register of unknown size from an empty
 stack read out of bounds

---
 nsasm/execution_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 108e0f0..2885eec 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -391,7 +391,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
-- 
2.43.0


From b96551078f6b6c5e554c6bebe02c1b209da79495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 17/43] fix: XCE no longer takes the carry at entry for the
 emulation bit at entry

---
 nsasm/execution_state.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 2885eec..ec5ae4a 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -86,11 +86,13 @@ class StatusFlags {
 
   // Modify this flag state to represent an "incoming" state to a subroutine.
   // All "unknown" bits become "original".
+  //
+  // The carry bit is left unknown: in `c_bit_`, "original" stands for the
+  // initial value of the emulation bit, which XCE moves there and back.
   void SetIncoming() {
     if (e_bit_ == B_unknown) e_bit_ = B_original;
     if (m_bit_ == B_unknown) m_bit_ = B_original;
     if (x_bit_ == B_unknown) x_bit_ = B_original;
-    if (c_bit_ == B_unknown) c_bit_ = B_original;
   }
 
   void ExchangeCE() {
-- 
2.43.0


From 5ca0e7a51315b103d55165752e78fc7f36ab8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 18/43] fix: track the stack space of PHB, PHD, PHK, PLB and
 PLD

---
 nsasm/instruction.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index ed600aa..ac9a26e 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,34 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Other registers, which are only tracked for the space they take.
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_plb) {
+    es->GetStack().PullByte();
+    es->DataBankRegister() = RegisterValue();
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 44c9dd45e0b344972eb2e3b944c7cc31b89c6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 19/43] fix: forget the tracked stack when TCS or TXS moves the
 stack pointer

---
 nsasm/instruction.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index ac9a26e..48b4cbd 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -384,6 +384,12 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Instructions that move the stack; nothing is known of what is there.
+  if (m == M_tcs || m == M_txs) {
+    es->GetStack() = Stack();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 489f2714a035b1b488469a03b909e0763f2f6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 20/43] fix: a stack-relative store overwrites what is tracked
 on the stack

---
 nsasm/execution_state.h | 18 ++++++++++++++++++
 nsasm/instruction.cc    |  8 ++++++++
 2 files changed, 26 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index ec5ae4a..99ab529 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -376,6 +376,24 @@ class Stack {
     }
   }
 
+  // Forget the `size` bytes from `offset` bytes above the stack pointer on (the
+  // top byte is at offset 1), or all of them if the offset is unknown.
+  void Overwrite(absl::optional<int> offset, int size) {
+    int position = 1;
+    bool position_known = offset.has_value();
+    for (size_t i = stack_.size(); i-- > 0; ++position) {
+      StackValue& entry = stack_[i];
+      if (entry.IsVarSize()) {
+        // From here on down, every entry may be the one affected.
+        position_known = false;
+        entry = StackValue(entry.type(), RegisterValue());
+      } else if (!position_known ||
+                 (position >= *offset && position < *offset + size)) {
+        entry = StackValue();
+      }
+    }
+  }
+
   StackValue PullByte() {
     if (abandoned_ || stack_.empty()) {
       Abandon();
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 48b4cbd..eae7548 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -286,6 +286,14 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  if (m == M_sta && addressing_mode == A_stk) {
+    auto offset = maybe_arg1();
+    if (offset.has_value()) *offset &= 0xff;
+    es->GetStack().Overwrite(offset,
+                             (es->Flags().MBit() == B_on) ? 1 : 2);
+    return {};
+  }
+
   if (m == M_mvn || m == M_mvp) {
     auto initial_a = maybe_arg1();
     if (es->Flags().MBit() == B_on) {
-- 
2.43.0


From b635ce0c4eb298f2b7b4c767db1243020a177cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 21/43] fix: report numeric literals that are too large instead
 of truncating them

---
 nsasm/token.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index 471a377..b5abbae 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -135,7 +135,10 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         hex_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(hex_digits.c_str(), nullptr, 16);
+      long value = strtol(hex_digits.c_str(), nullptr, 16);
+      if (value > 0xffffff) {
+        return Error("Numeric literal is too large").SetLocation(loc);
+      }
       // For hex constants, deduce the type from the number of characters.
       // ("$00" is a byte and "$0000" is a word, for example.)
       NumericType type = T_long;
@@ -144,7 +147,7 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
       } else if (hex_digits.size() <= 4) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(int(value), loc, type);
       continue;
     }
 
@@ -156,14 +159,17 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         binary_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(binary_digits.c_str(), nullptr, 2);
+      long value = strtol(binary_digits.c_str(), nullptr, 2);
+      if (value > 0xffffff) {
+        return Error("Numeric literal is too large").SetLocation(loc);
+      }
       NumericType type = T_long;
       if (binary_digits.size() <= 8) {
         type = T_byte;
       } else if (binary_digits.size() <= 16) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(int(value), loc, type);
       continue;
     }
 
@@ -174,8 +180,11 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         decimal_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(decimal_digits.c_str(), nullptr, 10);
-      result.emplace_back(value, loc);
+      long value = strtol(decimal_digits.c_str(), nullptr, 10);
+      if (value > 0x7fffffff) {
+        return Error("Numeric literal is too large").SetLocation(loc);
+      }
+      result.emplace_back(int(value), loc);
       continue;
     }
 
-- 
2.43.0


From 67d144b252f7de1368b945c7b9c3fab8cf7bb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 22/43] fix: an empty part of a line no longer hides the rest
 of it

---
 nsasm/parse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..292a73d 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -545,7 +545,8 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
     }
 
     if (AtEnd(&tokens)) {
-      return result_vector;
+      tokens.remove_prefix(1);
+      continue;
     }
 
     // pseudo scope operators
-- 
2.43.0


From 5f141c6fe9a4acd25318541b456e0541834465f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 23/43] fix: report arithmetic overflow in expressions instead
 of wrapping or crashing

---
 nsasm/expression.h | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..a8ef2e8 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -1,6 +1,8 @@
 #ifndef NSASM_EXPRESSION_H_
 #define NSASM_EXPRESSION_H_
 
+#include <cstdint>
+#include <limits>
 #include <set>
 
 #include "absl/memory/memory.h"
@@ -13,6 +15,16 @@
 
 namespace nsasm {
 
+// Returns the result of an arithmetic operation as an int, or an error if it
+// does not fit in one.
+inline ErrorOr<int> ArithmeticResult(std::int64_t value) {
+  if (value < std::numeric_limits<int>::min() ||
+      value > std::numeric_limits<int>::max()) {
+    return Error("arithmetic overflow");
+  }
+  return static_cast<int>(value);
+}
+
 struct BinaryOp {
   using FnPtr = ErrorOr<int> (*)(int, int);
   BinaryOp() = default;
@@ -24,15 +36,21 @@ struct BinaryOp {
 };
 
 inline BinaryOp MakePlusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a + b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return ArithmeticResult(std::int64_t{a} + b);
+  };
   return BinaryOp(op, '+');
 }
 inline BinaryOp MakeMinusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a - b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return ArithmeticResult(std::int64_t{a} - b);
+  };
   return BinaryOp(op, '-');
 }
 inline BinaryOp MakeMultiplyOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a * b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return ArithmeticResult(std::int64_t{a} * b);
+  };
   return BinaryOp(op, '*');
 }
 inline BinaryOp MakeDivideOp() {
@@ -40,7 +58,7 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
-    return a / b;
+    return ArithmeticResult(std::int64_t{a} / b);
   };
   return BinaryOp(op, '/');
 }
@@ -59,7 +77,9 @@ struct UnaryOp {
 };
 
 inline UnaryOp MakeNegateOp() {
-  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> { return -a; };
+  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> {
+    return ArithmeticResult(-std::int64_t{a});
+  };
   UnaryOp::TypeFnPtr tfn = [](NumericType t) { return Signed(t); };
   return UnaryOp(fn, tfn, '-');
 }
-- 
2.43.0


From 978856f3350370368a9819b1de2cd669abee6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 24/43] fix: an operand with a missing close parenthesis is an
 error

---
 nsasm/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 292a73d..62f5ad6 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -367,10 +367,10 @@ ErrorOr<Instruction> ParseInstructionCore(TokenSpan* pos) {
         return CreateInstruction(mnemonic, suffix, SA_ind_y, Loc(pos),
                                  std::move(*arg1));
       }
-      // We have to abandon this attempt and go back to parsing this as an
-      // expression.
-      *pos = backup_pos;
     }
+    // We have to abandon this attempt and go back to parsing this as an
+    // expression.
+    *pos = backup_pos;
   }
 
   // We've tried everything else; now try a bare expression.
-- 
2.43.0


From 854a48c51ab337a3e03f9f6cc9ce08fb5fe9bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 25/43] fix: a line reached again keeps what held on earlier
 visits

---
 nsasm/module.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..8278145 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -201,11 +201,15 @@ ErrorOr<void> Module::RunFirstPass() {
       return Error("Execution continues past end of file");
     }
     Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
-    if (line.reached && line.incoming_state == current_state) {
-      // we've been here before under these conditions; nothing more to do
-      decode_stack.erase(decode_stack.begin());
-      continue;
+    ExecutionState current_state = node.second;
+    if (line.reached) {
+      // Any state seen on an earlier visit is still possible.
+      current_state |= line.incoming_state;
+      if (current_state == line.incoming_state) {
+        // we've been here before under these conditions; nothing more to do
+        decode_stack.erase(decode_stack.begin());
+        continue;
+      }
     }
 
     line.reached = true;
-- 
2.43.0


From 6d83a7122c38ecb79124fbd354c8d25b031acb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 26/43] fix: report .org and .remote values that are no
 address; do not map such constants

---
 nsasm/module.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 8278145..85f1ecd 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -7,6 +7,12 @@
 #include "nsasm/token.h"
 
 namespace nsasm {
+namespace {
+
+// Returns true if the given value is the address of a byte in memory.
+bool IsAddress(int value) { return value >= 0 && value <= 0xffffff; }
+
+}  // namespace
 
 class ModuleLookupContext : public LookupContext {
  public:
@@ -261,6 +267,10 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
+      if (!IsAddress(*v)) {
+        return Error("Value %d is not an address", *v)
+            .SetLocation(dir->location);
+      }
       pc = nsasm::Address(*v);
     }
     int statement_size = line.statement.SerializedSize();
@@ -362,6 +372,10 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
+      if (!IsAddress(*arg_val)) {
+        return Error("Value %d is not an address", *arg_val)
+            .SetLocation(directive->location);
+      }
       Address address(*arg_val);
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
@@ -395,6 +409,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
+    if (!IsAddress(line.value->ToInt())) {
+      continue;  // an .equ constant that does not refer to memory
+    }
     nsasm::Address address = line.value->ToAddress();
     if (!address_to_global_.contains(address)) {
       address_to_global_[address] = node.first;
-- 
2.43.0


From f4aee0f84e3eda5117492a4f8cfd733496df8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 27/43] fix: a branch to an .equ constant is an error

---
 nsasm/module.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 85f1ecd..b146026 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -239,6 +239,11 @@ ErrorOr<void> Module::RunFirstPass() {
                      nsasm::ToString(ins.mnemonic), *target)
             .SetLocation(ins.location);
       }
+      if (lines_[*target_index].statement == D_equ) {
+        return Error("Target for `%s %s` is not a label",
+                     nsasm::ToString(ins.mnemonic), *target)
+            .SetLocation(ins.location);
+      }
       next_state = current_state;
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(ins.ExecuteBranch(&next_state),
                                           line.statement.Location());
-- 
2.43.0


From a8f15039387e3e07f7e4e778364f6d98ab26eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 28/43] fix: a label with no statement after it is an error

---
 nsasm/module.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index b146026..572276e 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -164,6 +164,13 @@ ErrorOr<Module> Module::LoadAsmFile(const File& file) {
       }
     }
   }
+  for (const ParsedLabel& pending_label : pending_labels) {
+    if (!pending_label.IsPlusOrMinus()) {
+      return Error("Label '%s' is not followed by a statement",
+                   pending_label.Identifier())
+          .SetLocation(loc);
+    }
+  }
   if (!active_scopes.empty()) {
     return Error("Scope open without matching close")
         .SetLocation(m.lines_[active_scopes.back()].statement.Location());
-- 
2.43.0


From e85d185f4b31c721000eb1f4c501836d2021ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 29/43] fix: drop a size suffix when a later disassembly makes
 the size unknown

---
 nsasm/disassemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..ada35a9 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -206,6 +206,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     Instruction& ins = node.second.instruction;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
+    ins.suffix = S_none;
     if (flag_used == kUsesMFlag) {
       if (flags.MBit() == B_on) {
         ins.suffix = S_b;
-- 
2.43.0


From 0c8a790a7b78b2298e96893ede3f8a6d8a4be939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 30/43] fix: a far branch seen again passes on its own state,
 not what the routine yields

---
 nsasm/disassemble.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index ada35a9..f3d263e 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -183,7 +183,10 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // ... the far branch target ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          // The routine is entered before its return convention applies.
+          auto far_branch_state = combined_execution_state;
+          far_branch_state.WipeCarry();
+          add_far_branch(*far_branch_address, far_branch_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 52533adec22ca3d2491204d825cfd89187d874e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 31/43] fix: disassemble PER with the address it refers to

---
 nsasm/addressing_mode.cc | 3 ++-
 nsasm/disassemble.cc     | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nsasm/addressing_mode.cc b/nsasm/addressing_mode.cc
index d02e065..e7dab54 100644
--- a/nsasm/addressing_mode.cc
+++ b/nsasm/addressing_mode.cc
@@ -205,7 +205,8 @@ ErrorOr<AddressingMode> DeduceMode(Mnemonic m, SyntacticAddressingMode smode,
   if (m == M_bcc || m == M_bcs || m == M_beq || m == M_bmi || m == M_bne ||
       m == M_bpl || m == M_bra || m == M_brl || m == M_bvc || m == M_bvs ||
       m == M_per) {
-    if (smode != SA_dir || !arg1.SimpleIdentifier()) {
+    // (PER does not branch, and can refer to any address.)
+    if (smode != SA_dir || (m != M_per && !arg1.SimpleIdentifier())) {
       return Error("Branch instruction %s requires a named branch target.",
                    ToString(m));
     }
diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index f3d263e..41bd245 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -136,6 +136,14 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         add_to_decode_stack(target, branch_execution_state);
       }
 
+      // PER takes the address it pushes, which may not be code.
+      if (instruction->mnemonic == M_per) {
+        int value = *instruction->arg1.Evaluate(NullLookupContext());
+        nsasm::Address target = next_pc.AddWrapped(value);
+        instruction->arg1 = absl::make_unique<Literal>(
+            (target.Bank() << 16) | target.BankAddress(), T_long);
+      }
+
       // We've decoded an instruction!  Store it.
       DisassembledInstruction di;
       di.instruction = std::move(*instruction);
-- 
2.43.0


From e3d4033400e021bd57955c10b763fdefb3325f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 32/43] fix: fold CLC/ADC and SEC/SBC only where they are
 executed in sequence

---
 nsasm/disassemble.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 41bd245..06540fd 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -298,6 +298,11 @@ ErrorOr<void> Disassembler::Cleanup() {
     if (next_iter == disassembly_.end()) {
       break;
     }
+    if (next_iter->first != iter->first.AddWrapped(1)) {
+      // Not the next instruction executed.
+      iter = next_iter;
+      continue;
+    }
     if (iter->second.instruction.mnemonic == M_clc &&
         next_iter->second.instruction.mnemonic == M_adc &&
         next_iter->second.label.empty()) {
-- 
2.43.0


From 268c463d51b6c1ff2d3874fcb59c721b91f01410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:55 +0000
Subject: [PATCH 33/43] fix: a refused disassembly no longer leaves its start
 marked as an entry point

---
 nsasm/disassemble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 06540fd..3c51ea9 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -80,8 +80,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -211,6 +210,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   }
 
   // If we got here, disassembly was a success.
+  entry_points_.insert(starting_address);
 
   // Add a suffix to each new disassembly instruction that supports one.
   for (auto& node : new_disassembly) {
-- 
2.43.0


From 655d2f78cbd3dd20e3f1862f0e04c177278ca0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 34/43] fix: printing a .remote directive keeps its return
 convention

---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From 2294815a99a65129aadd5b7e586cca2018b620de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 35/43] fix: disassemble_more no longer disassembles from the
 ROM it has given away

---
 util/disassemble_more.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..3bfb57b 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -38,11 +38,19 @@ int main(int argc, char** argv) {
   }
   nsasm::RomIdentityTest rom_identity_sink(std::move(*rom));
 
+  // The sink above owns its ROM, so the disassembler needs another.
+  auto disassembly_rom = nsasm::LoadRomFile(argv[1]);
+  if (!disassembly_rom.ok()) {
+    absl::PrintF("Error loading ROM: %s\n",
+                 disassembly_rom.error().ToString());
+    return 1;
+  }
+
   std::vector<nsasm::File> asm_files;
   for (int arg_index = 2; arg_index < argc; ++arg_index) {
     auto file = nsasm::OpenFile(argv[arg_index]);
     if (!file.ok()) {
-      absl::PrintF("Error loading file: %s", file.error().ToString());
+      absl::PrintF("Error loading file: %s\n", file.error().ToString());
       return 1;
     }
     asm_files.push_back(*std::move(file));
@@ -58,7 +66,7 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ReturnConvention> return_conventions =
       assembler->JumpTargetReturnConventions();
 
-  nsasm::Disassembler disassembler(*std::move(rom));
+  nsasm::Disassembler disassembler(*std::move(disassembly_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
   for (int pass = 0; pass < 100; ++pass) {
-- 
2.43.0


From 35b616c5bda7dd1ac51e870e2abd7c970fb2cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 36/43] fix: entry points are listed without the carry flag,
 which .entry does not take

---
 util/disassemble_more.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 3bfb57b..2c8814d 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -113,7 +113,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..eefe5e6 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -112,7 +112,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
-- 
2.43.0


From 2294fc3be5fb58ac42ff69121d50fa7b5a61f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 37/43] fix: the disassembly tools refuse start texts that are
 no address

---
 util/dumb_disassemble.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..3b0d77e 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -28,7 +28,7 @@ int main(int argc, char** argv) {
   }
 
   unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
+  if (sscanf(argv[2], "%x", &hex_address) != 1 || hex_address > 0xffffff) {
     usage(argv[2]);
     return 1;
   }
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index eefe5e6..c2a35f6 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffff) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From e278d864cece84627a10fc3f2cabbc7ee307fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 38/43] fix: quick_assemble reports a file it could not write
 in its exit status

---
 util/quick_assemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..d350f7c 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From 25e1fa4a9c7d31d073626e6eb23dfa56bbeaf46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 39/43] fix: code at the end of a ROM bank can be disassembled

---
 nsasm/disassemble.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 3c51ea9..9fc0843 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -10,6 +10,23 @@
 
 namespace nsasm {
 
+namespace {
+
+// Reads the bytes of the instruction at the given address.  No instruction is
+// longer than four bytes, but there may be fewer before the end of a ROM bank.
+ErrorOr<std::vector<uint8_t>> ReadInstruction(const InputSource& source,
+                                              nsasm::Address address) {
+  for (int length = 4; length > 1; --length) {
+    auto instruction_data = source.Read(address, length);
+    if (instruction_data.ok()) {
+      return instruction_data;
+    }
+  }
+  return source.Read(address, 1);
+}
+
+}  // namespace
+
 ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     nsasm::Address starting_address, const StatusFlags& initial_status_flags) {
   // Map of newly decoded, or locally modified, instructions.  This is
@@ -95,7 +112,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     if (!existing_instruction) {
       // This is the first time we've seen this address.  Try to disassemble
       // it.
-      auto instruction_data = src_->Read(pc, 4);
+      auto instruction_data = ReadInstruction(*src_, pc);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
       auto instruction =
           Decode(*instruction_data, current_execution_state.Flags());
@@ -167,7 +184,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // Check that the instruction still decodes with the new flag state.
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
-        auto instruction_data = src_->Read(pc, 4);
+        auto instruction_data = ReadInstruction(*src_, pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
-- 
2.43.0


From 4baa9f025aedb7757f3c3b2e1e22236f4cb024cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:26 +0000
Subject: [PATCH 40/43] fix: a name defined twice is reported at the source
 lines that define it

---
 nsasm/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 572276e..88d9a6a 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -345,7 +345,7 @@ const std::map<FullIdentifier, Location> Module::ExportedNames() const {
   std::map<FullIdentifier, Location> result;
   for (const auto& node : global_to_line_) {
     FullIdentifier id(module_name_, node.first);
-    Location loc(path_, node.second);
+    Location loc = lines_[node.second].statement.Location();
     result[std::move(id)] = std::move(loc);
   }
   return result;
-- 
2.43.0


From 9da8070d161bde7a360d4ed9673eb6ec84816532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 41/43] fix: disassemble routines however deep the calls to
 them go

---
 util/disassemble_more.cc  | 4 +++-
 util/quick_disassemble.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 2c8814d..ead0eca 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -69,7 +69,9 @@ int main(int argc, char** argv) {
   nsasm::Disassembler disassembler(*std::move(disassembly_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
-  for (int pass = 0; pass < 100; ++pass) {
+  // Disassembling a routine again reports no targets unless it learned of a new
+  // state, so this ends.
+  while (!seeds.empty()) {
     std::map<nsasm::Address, nsasm::StatusFlags> new_seeds;
     for (const auto& node : seeds) {
       if (assembler->Contains(node.first)) {
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index c2a35f6..a183fd8 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -72,7 +72,9 @@ int main(int argc, char** argv) {
 
   nsasm::Disassembler disassembler(std::move(*rom));
 
-  for (int pass = 0; pass < 100; ++pass) {
+  // Disassembling a routine again reports no targets unless it learned of a new
+  // state, so this ends.
+  while (!seeds.empty()) {
     std::map<nsasm::Address, nsasm::StatusFlags> new_seeds;
     for (const auto& node : seeds) {
       auto branch_targets = disassembler.Disassemble(node.first, node.second);
-- 
2.43.0


From a477c83794a76e4de05089a3da7ed198b04aed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 42/43] fix: dumb_disassemble lists instructions at the end of
 a ROM bank

---
 util/dumb_disassemble.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 3b0d77e..13a14bf 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -43,7 +43,11 @@ int main(int argc, char** argv) {
   nsasm::ExecutionState execution_state(*parsed_flag);
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
   while (true) {
+    // There may be fewer than four bytes before the end of a ROM bank.
     auto instruction_data = (*rom)->Read(address, 4);
+    for (int length = 3; length > 0 && !instruction_data.ok(); --length) {
+      instruction_data = (*rom)->Read(address, length);
+    }
     if (!instruction_data.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
                    instruction_data.error().ToString());
-- 
2.43.0


From bf2f73fc6a6b64fa82faa20faef7bd7fec4932cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 43/43] fix: dumb_disassemble carries the taken state to branch
 targets

---
 util/dumb_disassemble.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 13a14bf..7f324e6 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -63,7 +63,11 @@ int main(int argc, char** argv) {
     int instruction_bytes =
         nsasm::InstructionLength(instruction->addressing_mode);
     nsasm::Address next_pc = address.AddWrapped(instruction_bytes);
+    auto branch_state = execution_state;
     auto status = instruction->Execute(&execution_state);
+    if (status.ok() && instruction->IsLocalBranch()) {
+      status = instruction->ExecuteBranch(&branch_state);
+    }
     if (!status.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
                    status.error().ToString());
@@ -81,7 +85,7 @@ int main(int argc, char** argv) {
         local_branch_target +=
             absl::StrFormat(" (was %s)", prev_value->second.Flags().ToString());
       }
-      local_jumps[target] = execution_state;
+      local_jumps[target] = branch_state;
     }
     std::string instruction_string = instruction->ToString();
     absl::PrintF("%s - %30s ; %s%s\n", address.ToString(), instruction_string,
-- 
2.43.0

