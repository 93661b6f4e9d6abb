// Shared by the harnesses of the assembler: an output sink that records what
// it is given, and a lookup context with one symbolic value.
#pragma once
#include "nsasm/expression.h"
#include "nsasm/memory.h"
#include "sx.h"
namespace env {
struct RecordingSink : nsasm::OutputSink {
  int calls = 0, size = 0;
  uint32_t at = 0;
  uint8_t bytes[64] = {};
  bool fail = false;
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    if (fail) return nsasm::Error("sink refused");
    calls++;
    at = (uint32_t)a.Bank() << 16 | (uint32_t)a.BankAddress();
    size = (int)d.size();
    for (size_t i = 0; i < d.size() && i < 64; i++) bytes[i] = d[i];
    return {};
  }
};
struct Names : nsasm::LookupContext {
  bool known = true;
  int value = 0;
  nsasm::ErrorOr<int> Lookup(const nsasm::FullIdentifier&) const override {
    if (!known) return nsasm::Error("undefined name");
    return value;
  }
};
}  // namespace env
