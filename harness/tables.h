// Tables retyped from the standard.
#pragma once
#include <cstdint>
inline const char* ref_profile_name(uint32_t p, const uint32_t cs[6], int& type) {
  // Annex A.2 of the standard
  switch (p) {
    case 66: if (cs[1]) { type = 2; return "Constrained Baseline"; } type = 1; return "Baseline";
    case 77: type = 3; return "Main";
    case 88: type = 4; return "Extended";
    case 100: if (cs[4]) { if (cs[5]) { type = 7; return "Constrained High"; } type = 6; return "Progressive High"; } type = 5; return "High";
    case 110: if (cs[3]) { type = 10; return "High 10 Intra"; } if (cs[4]) { type = 9; return "Progressive High 10"; } type = 8; return "High 10";
    case 122: if (cs[3]) { type = 12; return "High 4:2:2 Intra"; } type = 11; return "High 4:2:2";
    case 144: if (cs[3]) { type = 14; return "High 4:4:4 Intra"; } type = 13; return "High 4:4:4";
    case 244: if (cs[3]) { type = 16; return "High 4:4:4 Predictive Intra"; } type = 15; return "High 4:4:4 Predictive";
    case 44: type = 17; return "CAVLC 4:4:4 Intra";
    default: type = 0; return "Unspecified";
  }
}
