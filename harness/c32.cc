// C32: directives, alone and as statements.
#include "nsasm/statement.h"
#include "asmenv.h"
#include "spec_cpu.h"
using namespace nsasm;
extern "C" void harness() {
  int n = (int)sx_param("n");
  auto name = (DirectiveName)sx_range(D_begin, D_remote, "directive");
  bool data = (name == D_db) | (name == D_dw) | (name == D_dl);
  int width = (int)sx_ite(name == D_db, 1, sx_ite(name == D_dw, 2, sx_ite(name == D_dl, 3, 0)));
  if (n > 0) sx_assume(data);  // only those have a list (C28)
  env::Names names;
  names.value = sx_int("name");
  names.known = sx_bool("defined");
  env::RecordingSink sink;
  sink.fail = sx_bool("sink_fails");
  Directive d;
  d.name = name;
  uint32_t value[16];
  bool needs = false;
  static const char* vn[16] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15"};
  static const char* tn[16] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "t10", "t11", "t12", "t13", "t14", "t15"};
  int lookup = (int)sx_param("lookup");  // which operand, if any, is a name
  for (int i = 0; i < n; i++) {
    if (i == lookup) {
      d.list_argument.push_back(absl::make_unique<IdentifierExpression>(FullIdentifier("name"), T_long));
      value[i] = (uint32_t)names.value;
      needs = true;
    } else {
      auto t = lookup == 0 || n == 1 ? (NumericType)sx_range(T_unknown, T_signed_long, tn[i]) : T_unknown;
      int raw = sx_int(vn[i]);
      value[i] = (uint32_t)*Literal(raw, t).Evaluate(NullLookupContext());
      d.list_argument.push_back(absl::make_unique<Literal>(raw, t));
    }
  }
  StatusFlags mode(B_off, spec::AnyBit("m"), spec::AnyBit("x"));
  d.flag_state_argument = mode;
  uint32_t at = sx_u32("address") & 0xffffff;
  Statement st(d);
  Statement copy = st;
  CHECK(st.Directive() != nullptr && st.Instruction() == nullptr, "kind");
  CHECK(st.SerializedSize() == n * width, "size");
  CHECK(copy.IsExitInstruction() == (name == D_halt), "halts");
  CHECK(!copy.IsLocalBranch(), "branches");
  bool ok = copy.Assemble(Address(at), names, &sink).ok();
  CHECK(ok == (!data | ((!needs | names.known) & !sink.fail)), "assembles");
  if (ok && data) {
    CHECK((sink.calls == 1) & (sink.at == at) & (sink.size == n * width), "where");
    bool same = true;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < width; j++) same &= sink.bytes[i * width + j] == ((value[i] >> (8 * j)) & 0xff);
    CHECK(same, "bytes");
    sx_reach("emitted");
  } else {
    CHECK(sink.calls == 0, "silent");
    sx_reach(ok ? "nothing" : "failed");
  }
  // Control flow.
  StatusFlags before(B_off, B_on, spec::AnyBit("before"));
  ExecutionState es;
  es.Flags() = before;
  bool ran = copy.Execute(&es).ok();
  CHECK(ran == (!data & (name != D_org)), "executable");
  if (ran) CHECK(es.Flags() == (name == D_mode ? mode : before), "flags");
  // What takes which arguments.
  auto t = DirectiveTypeByName(name);
  auto want = sx_ite(data, DT_list_arg, sx_ite(name == D_org, DT_constant_arg, sx_ite(name == D_equ, DT_single_arg,
              sx_ite(name == D_mode, DT_flag_arg, sx_ite(name == D_entry, DT_calling_convention_arg, sx_ite(name == D_module, DT_name_arg,
              sx_ite(name == D_remote, DT_remote_arg, DT_no_arg)))))));
  CHECK((uint64_t)t == want, "arguments");
}
