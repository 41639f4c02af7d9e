// The tool of the small footprint build: exit status only, it writes no dump.
#include "exitcase.h"
#include "runner.h"

namespace {
void c24_tool(Tape& t, Info& info) {
  exit_case(t, info, t.coin(1, 4));
  std::string s; if (get_file(g_scratch + "/stdout", s) && !s.empty()) fail("the tool without dump code wrote " + clip(s));
}
}  // namespace
PROP("C24", "tool", c24_tool, 6000, 100000, "small footprint build: exit status of the tool as for C15");
